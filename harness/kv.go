package main

import (
	"bytes"
	"errors"
	"sort"

	rcdb "github.com/sourcenetwork/raccoondb"

	zz_vsync "zzverif/vsync"
)

// SpyKV is an in-memory rcdb.KVStore under control of the harness. It records writes (crash
// enumeration), injects faults (fault enumeration) and calls Point before every operation
// (schedule enumeration). Iterators see the state at their creation.
type SpyKV struct {
	keys [][]byte
	vals map[string][]byte

	Log      []WriteOp // every applied write
	LogOn    bool
	Ops      int // operations so far, counted when Fault or Count is on
	Count    bool
	Fault    func(n int, op string) error // decides whether operation n fails
	Point    func(op string)
	OpenIter int
	Mtx      *zz_vsync.RWMutex // if set: reads share it, iterators hold it until closed, writes take it
}

type WriteOp struct {
	Del bool
	K   string
	V   []byte
}

var _ rcdb.KVStore = (*SpyKV)(nil)

func NewSpyKV() *SpyKV { return &SpyKV{vals: map[string][]byte{}} }

func (s *SpyKV) find(k []byte) (int, bool) {
	i := sort.Search(len(s.keys), func(i int) bool { return bytes.Compare(s.keys[i], k) >= 0 })
	return i, i < len(s.keys) && bytes.Equal(s.keys[i], k)
}

func (s *SpyKV) Clone() *SpyKV {
	c := NewSpyKV()
	c.keys = append([][]byte{}, s.keys...)
	for k, v := range s.vals {
		c.vals[k] = v
	}
	return c
}

// Dump is the exact contents of the store
func (s *SpyKV) Dump() string {
	var b bytes.Buffer
	for _, k := range s.keys {
		writeLen(&b, k)
		writeLen(&b, s.vals[string(k)])
	}
	return b.String()
}

func writeLen(b *bytes.Buffer, x []byte) {
	n := len(x)
	b.Write([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	b.Write(x)
}

func (s *SpyKV) step(op string) error {
	if s.Point != nil {
		s.Point(op)
	}
	if s.Fault != nil || s.Count {
		n := s.Ops
		s.Ops++
		if s.Fault != nil {
			return s.Fault(n, op)
		}
	}
	return nil
}

// rlock takes the read lock, if there is one, and returns the function which releases it
func (s *SpyKV) rlock() func() {
	if s.Mtx == nil {
		return func() {}
	}
	m := s.Mtx
	m.RLock()
	return m.RUnlock
}

func (s *SpyKV) Get(k []byte) ([]byte, error) {
	if err := s.step("get"); err != nil {
		return nil, err
	}
	s.rlock()()
	v, ok := s.vals[string(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

func (s *SpyKV) Has(k []byte) (bool, error) {
	if err := s.step("has"); err != nil {
		return false, err
	}
	s.rlock()()
	_, ok := s.vals[string(k)]
	return ok, nil
}

func (s *SpyKV) Set(k, v []byte) error {
	err := s.step("set")
	if err != nil && err != errApplied {
		return err
	}
	if len(k) == 0 {
		return errors.New("empty key")
	}
	if m := s.Mtx; m != nil {
		m.Lock()
		defer m.Unlock()
	}
	s.Apply(WriteOp{K: string(k), V: append([]byte{}, v...)})
	return err
}

func (s *SpyKV) Delete(k []byte) error {
	err := s.step("delete")
	if err != nil && err != errApplied {
		return err
	}
	if m := s.Mtx; m != nil {
		m.Lock()
		defer m.Unlock()
	}
	s.Apply(WriteOp{Del: true, K: string(k)})
	return err
}

// Apply performs a write
func (s *SpyKV) Apply(w WriteOp) {
	if s.LogOn {
		s.Log = append(s.Log, w)
	}
	i, ok := s.find([]byte(w.K))
	if w.Del {
		if ok {
			nk := make([][]byte, 0, len(s.keys))
			nk = append(nk, s.keys[:i]...)
			s.keys = append(nk, s.keys[i+1:]...)
			delete(s.vals, w.K)
		}
		return
	}
	if !ok {
		nk := make([][]byte, 0, len(s.keys)+1)
		nk = append(nk, s.keys[:i]...)
		nk = append(nk, []byte(w.K))
		s.keys = append(nk, s.keys[i:]...)
	}
	s.vals[w.K] = w.V
}

type spyIter struct {
	s      *SpyKV
	ks, vs [][]byte
	i      int
	err    error
	dead   bool
	closed bool
	unlock func()
}

func (s *SpyKV) Iterator(start, end []byte) rcdb.Iterator {
	it := &spyIter{s: s}
	s.OpenIter++
	if err := s.step("iterator"); err != nil {
		it.err, it.dead = err, true
		return it
	}
	it.unlock = s.rlock()
	lo := 0
	if start != nil {
		lo, _ = s.find(start)
	}
	hi := len(s.keys)
	if end != nil {
		hi, _ = s.find(end)
	}
	for j := lo; j < hi; j++ {
		it.ks = append(it.ks, s.keys[j])
		it.vs = append(it.vs, s.vals[string(s.keys[j])])
	}
	return it
}

func (it *spyIter) Valid() bool { return !it.dead && !it.closed && it.i < len(it.ks) }
func (it *spyIter) Next() {
	if !it.Valid() {
		panic("Next on invalid iterator")
	}
	it.i++
	// also a step which runs into the end of the range may fail
	if err := it.s.step("next"); err != nil {
		it.err, it.dead = err, true
	}
}
func (it *spyIter) Key() []byte   { return append([]byte{}, it.ks[it.i]...) }
func (it *spyIter) Value() []byte { return append([]byte{}, it.vs[it.i]...) }
func (it *spyIter) Error() error  { return it.err }
func (it *spyIter) Close() error {
	if !it.closed {
		it.closed = true
		it.s.OpenIter--
		if it.unlock != nil {
			it.unlock()
		}
	}
	return it.s.step("close")
}
