// Command zzverif replays harness assignments natively (injected through a
// build overlay; it is not part of the repository).
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"

	"github.com/giulianopz/go-readability"
)

func main() {
	debug.SetMaxStack(256 << 20)
	out := os.Stdout
	// the code under test may print: keep its output away from the results
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for sc.Scan() {
		var j struct {
			H string           `json:"h"`
			A map[string]int64 `json:"a"`
		}
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			continue
		}
		o, m, obs := readability.VxRun(j.H, j.A)
		enc.Encode(map[string]any{"outcome": o, "msg": m, "obs": obs})
		w.Flush()
	}
}
