package conversion

import (
	"fmt"
	"testing"
)

func TestVerifReplayThreshold(t *testing.T) {
	for n := -200; n <= 200000; n++ {
		got, err := GetThreshold(n)
		if n < 0 {
			if err == nil {
				fmt.Printf("REPLAY-FAIL: GetThreshold(%d) = %d without an error\n", n, got)
				return
			}
			continue
		}
		want := (2*n+2)/3 - 1
		if err != nil || got != want {
			fmt.Printf("REPLAY-FAIL: GetThreshold(%d) = %d, %v; want %d\n", n, got, err, want)
			return
		}
	}
}
