//go:build verifrepl

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/cmd/GoBCDiceREPL/repl"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

// caseShell runs a history of shell commands against a model of it.
func caseShell(c *Case) string {
	var out bytes.Buffer
	r := repl.New(strings.NewReader(""), &out)
	manual := false
	var queue []die
	for i := 0; i+1 < len(c.Strs); i += 2 {
		name, args := c.Strs[i], c.Strs[i+1]
		at := fmt.Sprintf("step %d (.%s %q): ", i/2+1, name, args)
		before := repl.VerifFeeder(r)
		out.Reset()
		repl.VerifDo(r, name, args)
		text := out.String()
		failed := strings.Contains(text, repl.ESC_RED)
		switched := false
		switch name {
		case "set-die-feeder":
			switch strings.ToLower(args) {
			case "queue":
				manual, queue, switched = true, nil, true
			case "mt":
				manual, queue, switched = false, nil, true
			}
		case "set-dice-queue":
			ds, ok := refDice(args)
			if ok && hugeNumber && manual {
				ok = !failed // the recorded finding of C21
			}
			if ok && manual {
				queue = ds
			}
			if failed == (ok && manual) {
				return at + "error shown: " + strconv.FormatBool(failed) + ", list valid: " + strconv.FormatBool(ok) + ", manual: " + strconv.FormatBool(manual)
			}
		case "roll":
			f := strings.Fields(args)
			if len(f) != 2 {
				break
			}
			n, e1 := strconv.Atoi(f[0])
			s, e2 := strconv.Atoi(f[1])
			if e1 != nil || e2 != nil || !manual {
				break
			}
			ok := n >= 1 && s >= 1 && n <= len(queue)
			var want []string
			for j := 0; ok && j < n; j++ {
				d := queue[j]
				ok = d.S == s && 1 <= d.V && d.V <= s
				want = append(want, fmt.Sprintf("%d/%d", d.V, d.S))
			}
			if ok == failed {
				return at + "the queue is " + fmt.Sprint(queue) + " but the shell says " + text
			}
			if ok && !strings.Contains(text, strings.Join(want, ", ")+"\n") {
				return at + "the queue is " + fmt.Sprint(queue) + " but the shell says " + text
			}
		case "eval":
			if args == "" || !manual {
				break
			}
			t := args
			if t[0] == 'S' || t[0] == 's' {
				t = t[1:]
			}
			rs := &stub{ds: queue}
			want, _, _ := refWhole(t, rs.ref())
			if (want == nil) != failed {
				return at + "the queue is " + fmt.Sprint(queue) + " but the shell says " + text
			}
			if want != nil && len(want.Parts) > 0 && !strings.Contains(text, want.Parts[len(want.Parts)-1]) {
				return at + "the queue is " + fmt.Sprint(queue) + " but the shell says " + text
			}
		}
		f := repl.VerifFeeder(r)
		if e := repl.VerifEngine(r).DieFeeder(); e != f {
			return at + "the engine uses another dice source than the shell"
		}
		if !switched && f != before {
			return at + "the dice source was replaced"
		}
		if f.CanSpecifyDie() != manual {
			return at + "the dice source is of the wrong kind"
		}
		if manual {
			ds := f.(*feeder.Queue).Dice()
			if len(ds) != len(queue) {
				return at + fmt.Sprintf("the queue holds %v, want %v", ds, queue)
			}
			for j, d := range ds {
				if d != (dice.Die{Value: queue[j].V, Sides: queue[j].S}) {
					return at + fmt.Sprintf("the queue holds %v, want %v", ds, queue)
				}
			}
		}
		// the shell's own roller draws from the same source
		if manual {
			q := f.(*feeder.Queue)
			save := q.Dice()
			q.Set([]dice.Die{{Value: 3, Sides: 7}})
			d, err := repl.VerifRoller(r).RollDice(1, 7)
			if err != nil || len(d) != 1 || d[0].Value != 3 || q.Remaining() != 0 {
				return at + "rolls are drawn from another dice source"
			}
			q.Set([]dice.Die{{Value: 3, Sides: 7}})
			res, err := repl.VerifEngine(r).ExecuteCommand("1D7")
			if err != nil || len(res.RolledDice) != 1 || q.Remaining() != 0 {
				return at + "commands draw from another dice source"
			}
			q.Set(save)
		}
	}
	return ""
}
