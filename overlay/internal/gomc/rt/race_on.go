//go:build race

package rt

import (
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

const RaceOn = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceReleaseThread(t *Thread) { runtime.RaceReleaseMerge(unsafe.Pointer(&t.raceTok)) }
func raceAcquireThread(t *Thread) { runtime.RaceAcquire(unsafe.Pointer(&t.raceTok)) }
func raceReleaseDone(t *Thread)   { runtime.RaceReleaseMerge(unsafe.Pointer(&t.raceTok)) }
func raceAcquireDone(t *Thread)   { runtime.RaceAcquire(unsafe.Pointer(&t.raceTok)) }
func RaceErrors() int             { return runtime.RaceErrors() }

func raceAcq(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRel(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

func RaceAcq(p *byte) {
	if p != nil {
		raceAcq(p)
	}
}
func RaceRel(p *byte) {
	if p != nil {
		raceRel(p)
	}
}

const raceDir = "VSAMC_RACEDIR"

var raceTier string

// RaceSetup makes the race detector write its reports into a file of this
// process; its options can only be given at start, so the process starts anew.
func RaceSetup(tier string) {
	raceTier = tier
	if d := os.Getenv(raceDir); d != "" && strings.Contains(os.Getenv("GORACE"), d) {
		return
	}
	d, err := os.MkdirTemp("", "vsamc-race-")
	if err != nil {
		return
	}
	os.Setenv(raceDir, d)
	os.Setenv("GORACE", "halt_on_error=0 exitcode=0 history_size=4 suppress_equal_stacks=1 suppress_equal_addresses=0 log_path="+d+"/race")
	self, err := os.Executable()
	if err == nil {
		err = syscall.Exec(self, os.Args, os.Environ())
	}
	fmt.Fprintln(os.Stderr, "cannot start the race detector:", err)
	os.Exit(3)
}

func RaceCleanup() {
	if d := os.Getenv(raceDir); strings.Contains(d, "vsamc-race-") {
		os.RemoveAll(d)
	}
}

var (
	raceSeen int
	raceRead int
)

// newRace returns the first race reported since the last call in which both
// accesses come from the code under test.
func newRace() string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	b, err := os.ReadFile(filepath.Join(os.Getenv(raceDir), fmt.Sprintf("race.%d", os.Getpid())))
	if err != nil || len(b) <= raceRead {
		return ""
	}
	text := string(b[raceRead:])
	raceRead = len(b)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE") {
		if m := judge(rep); m != "" {
			return m
		}
	}
	return ""
}

// judge returns a line for a report whose two accesses are the code's own.
func judge(rep string) string {
	_, self, _, _ := runtime.Caller(0)
	root := strings.TrimSuffix(self, "internal/gomc/rt/race_on.go")
	var sides []string
	for _, sec := range strings.Split(rep, "\n\n") {
		sec = strings.TrimLeft(sec, "\n= ")
		head := sec
		if i := strings.Index(sec, "\n"); i >= 0 {
			head = sec[:i]
		}
		l := strings.ToLower(head)
		if !strings.Contains(l, "read at") && !strings.Contains(l, "write at") && !strings.Contains(l, "read by") && !strings.Contains(l, "write by") {
			continue
		}
		who := ""
		fn := ""
		for _, ln := range strings.Split(sec, "\n")[1:] {
			t := strings.TrimSpace(ln)
			if !strings.HasPrefix(t, "/") {
				fn = t
				continue
			}
			if !strings.HasPrefix(t, root) || strings.Contains(fn, "gomc/rt.RangeMap") || strings.Contains(fn, "gomc/graw.") {
				continue // library code works for its caller
			}
			if i := strings.Index(t, " +0x"); i >= 0 {
				t = t[:i]
			}
			t = strings.TrimPrefix(t, root)
			if strings.HasPrefix(t, "internal/gomc/") || strings.Contains(t, "/zz_gomc") {
				return "" // the engine's or the harness's
			}
			who = strings.ToLower(strings.Fields(head + " x")[0]) + " at " + strings.TrimSuffix(fn, "()") + " (" + t + ")"
			if strings.HasPrefix(l, "previous") {
				who = strings.ToLower(strings.Fields(head)[1]) + who[len("previous"):]
			}
			break
		}
		if who == "" {
			if !strings.Contains(sec, "failed to restore") {
				return ""
			}
			who = "an access whose stack is lost"
		}
		sides = append(sides, who)
	}
	if len(sides) != 2 || sides[0] == sides[1] && strings.HasPrefix(sides[0], "an access") {
		return ""
	}
	return "data race: " + sides[0] + " and " + sides[1] + " are not ordered by any synchronisation"
}

// confirmRace replays the schedule in fresh processes.
func confirmRace(sc *Scenario, b Budget, choices []int, msg string) *Report {
	rep := &Report{Scenario: sc.Name, Msg: msg, Choices: choices, Budget: b, Race: true}
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	j, _ := json.Marshal(map[string]any{"report": rep})
	f := filepath.Join(os.Getenv(raceDir), "replay.json")
	if os.WriteFile(f, j, 0o644) != nil {
		return nil
	}
	n := 0
	for i := 0; i < 3; i++ {
		c := osexec.Command(self, "-replay", f, "-tier", raceTier)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, raceDir) {
				c.Env = append(c.Env, e)
			}
		}
		out, err := c.Output()
		if x, ok := err.(*osexec.ExitError); ok && x.ExitCode() == 1 && strings.Contains(string(out), "REPRODUCED") {
			n++
			rep.Trace = strings.Split(strings.TrimSpace(string(out)), "\n")
		}
	}
	if n == 0 {
		return nil
	}
	rep.Confirm = fmt.Sprintf("%d/3 replays", n)
	return rep
}
