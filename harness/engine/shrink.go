package engine

import "time"

// shrink looks for a simpler sequence of draws for which fails still holds.
func shrink(best []uint64, fails func([]uint64) ([]uint64, bool), deadline time.Time) []uint64 {
	try := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		if used, ok := fails(c); ok {
			if used != nil && len(used) <= len(c) {
				c = used
			}
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for size := 32; size >= 1; size /= 2 { // delete blocks
			for i := len(best) - size; i >= 0; i-- {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				}
			}
		}
		for size := 8; size >= 1; size /= 2 { // zero blocks
			for i := 0; i+size <= len(best); i++ {
				c := append([]uint64(nil), best...)
				changed := false
				for j := i; j < i+size; j++ {
					changed = changed || c[j] != 0
					c[j] = 0
				}
				if changed && try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ { // smaller numbers
			lo, hi := uint64(0), uint64(0)
			if i < len(best) {
				hi = best[i]
			}
			for lo < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = mid
				} else {
					lo = mid + 1
				}
			}
		}
		for i := 0; i+1 < len(best); i++ { // lower a count together with deleting what follows
			for size := 1; size <= 6 && i+1+size <= len(best); size++ {
				if best[i] == 0 {
					break
				}
				c := append([]uint64(nil), best[:i]...)
				c = append(c, best[i]-1)
				c = append(c, best[i+1+size:]...)
				if try(c) {
					improved = true
				}
			}
		}
	}
	return best
}
