package h

import (
	"fmt"
	"strings"

	"velsim/simrt"
)

// diverge looks for the first decision two runs of the same seed differ in.
func diverge(sc *Scenario, c Conf) string {
	a := make([]simrt.LogEntry, 1<<18)
	b := make([]simrt.LogEntry, 1<<18)
	for try := 0; try < 5; try++ {
		ra, _ := execute(sc, c, false, nil, a, false)
		rb, _ := execute(sc, c, false, nil, b, false)
		if ra.Stats.Hash == rb.Stats.Hash {
			continue
		}
		for i := uint64(0); i < ra.Stats.LogN || i < rb.Stats.LogN; i++ {
			if a[i] != b[i] {
				var s []string
				for j := int64(i) - 6; j < int64(i)+3; j++ {
					if j >= 0 {
						s = append(s, fmt.Sprintf("%d: %+v | %+v", j, a[j], b[j]))
					}
				}
				for j, e := range ra.Evs {
					if j < len(rb.Evs) && (rb.Evs[j].K != e.K || rb.Evs[j].Step != e.Step) {
						s = append(s, fmt.Sprintf("event %d: %+v | %+v", j, e, rb.Evs[j]))
						break
					}
				}
				return strings.Join(s, "\n")
			}
		}
	}
	return "does not happen again"
}
