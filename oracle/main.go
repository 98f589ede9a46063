package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

// Case is one concrete input.
type Case struct {
	Prop string   `json:"property"`
	Kind string   `json:"kind"`
	Text string   `json:"text,omitempty"`
	Dice []die    `json:"dice,omitempty"`
	Ints []int    `json:"ints,omitempty"`
	Strs []string `json:"strs,omitempty"`
}

// Report is what a search found.
type Report struct {
	Found       bool     `json:"found"`
	Case        *Case    `json:"case,omitempty"`
	What        string   `json:"what,omitempty"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Samples     []string `json:"samples,omitempty"`
}

func runGuarded(c *Case) (what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v\n%s", r, firstLines(string(debug.Stack()), 25))
		}
	}()
	return runCase(c)
}

func firstLines(s string, n int) string {
	for i := range s {
		if s[i] == '\n' {
			n--
			if n == 0 {
				return s[:i]
			}
		}
	}
	return s
}

func main() {
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	secs := fs.Int("secs", 30, "seconds")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "", "report file")
	repo := fs.String("repo", "/repo", "repository")
	max := fs.Int("max", 0, "cases")
	fs.Parse(os.Args[2:])
	if mode == "replay" {
		var x struct {
			FailingInput struct {
				Case *Case `json:"case"`
			} `json:"failing_input"`
		}
		b, err := os.ReadFile(fs.Arg(0))
		if err == nil {
			err = json.Unmarshal(b, &x)
		}
		if err != nil || x.FailingInput.Case == nil {
			fmt.Println("no failing input in", fs.Arg(0))
			os.Exit(2)
		}
		w := runGuarded(x.FailingInput.Case)
		if w == "" {
			fmt.Println("holds")
			return
		}
		fmt.Println(w)
		os.Exit(1)
	}
	loadDict(*repo)
	g := &gen{rand.New(rand.NewSource(*seed*7919 + int64(len(*prop)) + hash(*prop)))}
	rep := &Report{}
	seen := map[uint64]bool{}
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	var fixed []*Case
	fixed = fixedCases(*prop)
	for i := 0; time.Now().Before(end) && (*max == 0 || i < *max); i++ {
		var c *Case
		if i < len(fixed) {
			c = fixed[i]
		} else {
			c = genCase(g, *prop)
		}
		if c == nil {
			break
		}
		c.Prop = *prop
		b, _ := json.Marshal(c)
		h := fnv.New64a()
		h.Write(b)
		if len(seen) < 4000000 {
			seen[h.Sum64()] = true
		}
		if len(rep.Samples) < 5 || i%5000 == 0 && len(rep.Samples) < 12 {
			rep.Samples = append(rep.Samples, string(b))
		}
		if *out != "" {
			cur.write(*out+".cur", b)
		}
		w := runGuarded(c)
		rep.Evaluations++
		if w != "" {
			rep.Found, rep.Case, rep.What = true, c, w
			break
		}
	}
	rep.Distinct = len(seen)
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	} else {
		fmt.Println(string(b))
	}
	if rep.Found {
		os.Exit(1)
	}
}

func hash(s string) int64 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int64(h.Sum32())
}

// curFile keeps the case under way, for runs that kill the process.
type curFile struct {
	f *os.File
	n int
}

var cur curFile

func (c *curFile) write(name string, b []byte) {
	if c.f == nil {
		c.f, _ = os.Create(name)
	}
	for len(b) < c.n {
		b = append(b, ' ')
	}
	c.n = len(b)
	c.f.WriteAt(b, 0)
}
