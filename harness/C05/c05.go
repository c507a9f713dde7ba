package playback

import "github.com/LogicalOverflow/music-sync/zzverif"

type zzItem struct {
	s [2]float64
	t int64
}

// ZZ_C05_Seq drives the queue sequentially with arbitrary contents against a list.
func ZZ_C05_Seq() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	q := newTimedSampleQueue(c)
	var model []zzItem
	zzverif.Assert(q.Cap() == c, "capacity")
	for i := 0; i < zzverif.Bound("ops"); i++ {
		switch zzverif.Choose("op", 3) {
		case 0:
			if len(model) == c {
				zzverif.Assert(q.full(), "full")
				continue
			}
			it := zzItem{[2]float64{zzverif.Float64("l"), zzverif.Float64("r")}, zzverif.Int64("t")}
			q.Add(it.s, it.t)
			model = append(model, it)
		case 1:
			if len(model) == 0 {
				zzverif.Assert(q.empty(), "empty")
				continue
			}
			zzverif.Reach("remove")
			s, t := q.Remove()
			zzSame(s, t, model[0])
			model = model[1:]
		case 2:
			if len(model) == 0 {
				continue
			}
			zzverif.Reach("peek")
			s, t := q.Peek()
			zzSame(s, t, model[0])
		}
		zzverif.Assert(q.Len() == len(model), "length")
		zzverif.Assert(q.empty() == (len(model) == 0), "empty iff length 0")
		zzverif.Assert(q.full() == (len(model) == c), "full iff length is the capacity")
	}
	zzverif.Observe("len", int64(q.Len()))
}

func zzSame(s [2]float64, t int64, it zzItem) {
	zzverif.Assert(t == it.t, "time belongs to the sample")
	// NaN samples are legal: compare as values, NaN with NaN
	zzverif.Assert(s[0] == it.s[0] || s[0] != s[0] && it.s[0] != it.s[0], "left value")
	zzverif.Assert(s[1] == it.s[1] || s[1] != s[1] && it.s[1] != it.s[1], "right value")
}

func zzItems(prefix string, n int) []zzItem {
	its := make([]zzItem, n+1)
	for i := range its {
		its[i] = zzItem{[2]float64{zzverif.Float64(prefix + "l"), zzverif.Float64(prefix + "r")}, zzverif.Int64(prefix + "t")}
		zzverif.Assume(its[i].s[0] == its[i].s[0] && its[i].s[1] == its[i].s[1])
	}
	return its
}

// ZZ_C05_Pipe: one producer, one consumer, arbitrary contents.
func ZZ_C05_Pipe() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	n := zzverif.Bound("items")
	its := zzItems("", n)
	q := newTimedSampleQueue(c)
	done := make(chan bool, 2)
	go func() {
		for i := 1; i <= n; i++ {
			q.Add(its[i].s, its[i].t)
		}
		done <- true
	}()
	go func() {
		for i := 1; i <= n; i++ {
			s, t := q.Remove()
			zzSame(s, t, its[i])
		}
		done <- true
	}()
	<-done
	<-done
	zzverif.Reach("done")
	zzverif.Assert(q.Len() == 0, "all elements were removed")
}

// ZZ_C05_Peek: producer, consumer that peeks before it removes, and a length reader.
func ZZ_C05_Peek() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	n := zzverif.Bound("items")
	its := zzItems("", n)
	q := newTimedSampleQueue(c)
	done := make(chan bool, 3)
	go func() {
		for i := 1; i <= n; i++ {
			q.Add(its[i].s, its[i].t)
		}
		done <- true
	}()
	go func() {
		for i := 1; i <= n; i++ {
			s, t := q.Peek()
			zzSame(s, t, its[i])
			s, t = q.Remove()
			zzSame(s, t, its[i])
		}
		done <- true
	}()
	go func() {
		for i := 0; i < zzverif.Bound("lens"); i++ {
			l := q.Len()
			zzverif.Assert(0 <= l && l <= c, "length within the capacity")
		}
		done <- true
	}()
	<-done
	<-done
	<-done
	zzverif.Reach("done")
}

// ZZ_C05_Many: two producers and two consumers; the time identifies the element.
func ZZ_C05_Many() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	n := zzverif.Bound("items")
	its := [2][]zzItem{zzItems("a", n), zzItems("b", n)}
	q := newTimedSampleQueue(c)
	done := make(chan bool, 4)
	var seen [2][64]int
	for p := range its {
		p := p
		for i := 1; i <= n; i++ {
			its[p][i].t = int64(10*p + i)
		}
		go func() {
			for i := 1; i <= n; i++ {
				q.Add(its[p][i].s, its[p][i].t)
			}
			done <- true
		}()
	}
	for k := 0; k < 2; k++ {
		go func() {
			last := [2]int{}
			for i := 1; i <= n; i++ {
				s, t := q.Remove()
				zzverif.Assert(t > 0 && t <= int64(10+n), "a removed element was added")
				p, j := int(t/10), int(t%10)
				zzSame(s, t, its[p][j])
				seen[p][j]++
				zzverif.Assert(j > last[p], "elements of one producer leave in order")
				last[p] = j
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	for p := 0; p < 2; p++ {
		for i := 1; i <= n; i++ {
			zzverif.Assert(seen[p][i] == 1, "every element is removed exactly once")
		}
	}
	zzverif.Reach("done")
}

// ZZ_C05_Full: several adders wait for room in a full queue.
func ZZ_C05_Full() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	q := newTimedSampleQueue(c)
	for i := 0; i < c; i++ {
		q.Add([2]float64{}, int64(i))
	}
	adders := zzverif.Bound("adders")
	done := make(chan bool, adders+1)
	for a := 0; a < adders; a++ {
		a := a
		go func() {
			q.Add([2]float64{}, int64(c+a))
			done <- true
		}()
	}
	go func() {
		seen := make([]bool, c+adders)
		for i := 0; i < c+adders; i++ {
			_, t := q.Remove()
			zzverif.Assert(0 <= t && t < int64(c+adders) && !seen[t], "every element is removed exactly once")
			zzverif.Assert(int64(c) <= t || t == int64(i), "elements leave in the order they were added")
			seen[t] = true
		}
		done <- true
	}()
	for i := 0; i <= adders; i++ {
		<-done
	}
	zzverif.Reach("done")
	zzverif.Assert(q.Len() == 0, "all elements were removed")
}

// ZZ_C05_Waiting: a reader that peeks and one that removes wait for the same elements.
func ZZ_C05_Waiting() {
	c := 1 + zzverif.Choose("cap", zzverif.Bound("cap"))
	q := newTimedSampleQueue(c)
	removed, peeked := false, false
	go func() {
		s, _ := q.Peek()
		zzverif.Assert(s[0] == 1 || s[0] == 2, "a peeked element was added")
		peeked = true
	}()
	go func() {
		s, _ := q.Remove()
		zzverif.Assert(s[0] == 1, "elements leave in the order they were added")
		removed = true
	}()
	go func() { q.Add([2]float64{1, 1}, 1) }()
	zzverif.Quiesce()
	zzverif.Assert(removed, "a reader goes on once there is an element")
	q.Add([2]float64{2, 2}, 2)
	zzverif.Quiesce()
	zzverif.Assert(peeked, "a reader goes on once there is an element")
	zzverif.Assert(q.Len() == 1, "peeking does not remove")
	zzverif.Reach("done")
}
