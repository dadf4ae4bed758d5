package main

import (
	"time"
)

// minimise shrinks rp's choices while some violation of the same property with the same
// signature class persists, each candidate in a fresh process. It returns the number of candidates run.
func minimise(rp *Replay, budget time.Duration) int {
	end := time.Now().Add(budget)
	n := 0
	if rp.Choices == nil {
		// The run kills its process: try to learn its choices by replaying the seed; nothing to shrink otherwise.
		return 0
	}
	sig := rp.Sig
	try := func(ch *Choices, prefix uint64) bool {
		if time.Now().After(end) || n > 1500 {
			return false
		}
		n++
		cand := *rp
		cand.Choices, cand.Prefix = ch, prefix
		v, w, h := tryReplay(&cand)
		if h != "" || v == nil || v.Sig != sig {
			return false
		}
		rp.Prefix = prefix
		if w != nil && w.Choices != nil && w.Run == rp.Run && w.Choices.size() <= ch.size() {
			rp.Choices = w.Choices
		} else {
			rp.Choices = ch
		}
		rp.Msg = v.Msg
		return true
	}
	// fewer runs before
	for rp.Prefix > 0 {
		if !try(rp.Choices, rp.Prefix/2) {
			break
		}
	}
	for rp.Prefix > 0 && rp.Prefix < 40 {
		if !try(rp.Choices, rp.Prefix-1) {
			break
		}
	}
	for round := 0; round < 4; round++ {
		before := rp.Choices.size()
		changedVals := false
		// delete blocks of steps
		for size := len(rp.Choices.Steps) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(rp.Choices.Steps); {
				ch := rp.Choices.clone()
				ch.Steps = append(ch.Steps[:i], ch.Steps[i+size:]...)
				if !try(ch, rp.Prefix) {
					i += size
				}
				if time.Now().After(end) {
					return n
				}
			}
		}
		// truncate and zero spans
		spans := func(ch *Choices) []*[]uint64 {
			s := []*[]uint64{&ch.Setup}
			for i := range ch.Steps {
				s = append(s, &ch.Steps[i])
			}
			return append(s, &ch.Tail)
		}
		for k := 0; k < len(spans(rp.Choices)); k++ {
			for {
				l := len(*spans(rp.Choices)[k])
				if l == 0 {
					break
				}
				ch := rp.Choices.clone()
				sp := spans(ch)[k]
				*sp = (*sp)[:l/2]
				if !try(ch, rp.Prefix) {
					break
				}
				if len(*spans(rp.Choices)[k]) >= l {
					break
				}
			}
			for i := 0; i < len(*spans(rp.Choices)[k]); i++ {
				v := (*spans(rp.Choices)[k])[i]
				if v == 0 {
					continue
				}
				ok := false
				for _, nv := range []uint64{0, 1, v / 2, v - 1} {
					if nv >= v {
						continue
					}
					ch := rp.Choices.clone()
					(*spans(ch)[k])[i] = nv
					if try(ch, rp.Prefix) {
						ok, changedVals = true, true
						break
					}
					if k >= len(spans(rp.Choices)) {
						break
					}
				}
				_ = ok
				if k >= len(spans(rp.Choices)) {
					break
				}
				// delete the value altogether
				if i < len(*spans(rp.Choices)[k]) {
					ch := rp.Choices.clone()
					sp := spans(ch)[k]
					*sp = append((*sp)[:i], (*sp)[i+1:]...)
					if try(ch, rp.Prefix) && k < len(spans(rp.Choices)) && i < len(*spans(rp.Choices)[k]) {
						i--
					}
				}
				if time.Now().After(end) || k >= len(spans(rp.Choices)) {
					break
				}
			}
		}
		if rp.Choices.size() == before && !changedVals {
			break
		}
	}
	return n
}
