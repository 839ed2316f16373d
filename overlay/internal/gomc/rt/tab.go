package rt

// Tab is a hash table from integers.  The engine uses it where several
// goroutines meet: the runtime reports the accesses of built-in maps to the
// race detector even from packages compiled without it.
type Tab[V any] struct {
	keys []uint64
	vals []V
	used []bool
	n    int
}

func (t *Tab[V]) slot(k uint64) int {
	m := uint64(len(t.keys) - 1)
	i := (k * 0x9e3779b97f4a7c15) >> 17 & m
	for t.used[i] && t.keys[i] != k {
		i = (i + 1) & m
	}
	return int(i)
}

func (t *Tab[V]) Get(k uint64) (v V, ok bool) {
	if t.n == 0 {
		return
	}
	i := t.slot(k)
	return t.vals[i], t.used[i]
}

func (t *Tab[V]) Set(k uint64, v V) {
	if 2*t.n >= len(t.keys) {
		o := *t
		n := 2 * len(o.keys)
		if n == 0 {
			n = 16
		}
		t.keys, t.vals, t.used = make([]uint64, n), make([]V, n), make([]bool, n)
		for i, u := range o.used {
			if u {
				j := t.slot(o.keys[i])
				t.keys[j], t.vals[j], t.used[j] = o.keys[i], o.vals[i], true
			}
		}
	}
	i := t.slot(k)
	if !t.used[i] {
		t.n++
	}
	t.keys[i], t.vals[i], t.used[i] = k, v, true
}

func (t *Tab[V]) Len() int { return t.n }
