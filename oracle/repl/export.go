// Package repl: a way into the shell's handlers for the oracle. Added to the
// package through an overlay.
package repl

import (
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
)

func VerifDo(r *REPL, name, args string) {
	c := commandMap[name]
	c.Handler(r, c, args)
}
func VerifFeeder(r *REPL) feeder.DieFeeder   { return r.dieFeeder }
func VerifEngine(r *REPL) *bcdice.BCDice     { return r.bcDice }
func VerifRoller(r *REPL) *roller.DiceRoller { return r.diceRoller }
