package main

// Infrastructure of the checks: obligations, findings, known findings, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule string   `json:"rule"`
	Key  string   `json:"key"` // identifies the construct without line numbers
	At   string   `json:"at"`
	Func string   `json:"function"`
	Msg  string   `json:"message"`
	Path []string `json:"path,omitempty"`
}

// Ctx collects the results of the rules of one property.
type Ctx struct {
	w           *World
	prop        string
	oblig, done int
	finds       []Finding
	seen        map[string]bool
	rules       map[string][2]int // obligations and discharged by rule
	fns         map[string]bool
	paths, evs  int
	samples     []string
	sampled     map[string]bool
	unknown     map[string]bool
}

func newCtx(w *World, prop string) *Ctx {
	return &Ctx{w: w, prop: prop, seen: map[string]bool{}, rules: map[string][2]int{}, fns: map[string]bool{},
		sampled: map[string]bool{}, unknown: map[string]bool{}}
}

// ob records an obligation: what must hold, where, whether it does.
func (c *Ctx) ob(ok bool, rule string, fn *ssa.Function, pos token.Pos, construct string, format string, args ...any) bool {
	c.oblig++
	r := c.rules[rule]
	r[0]++
	if ok {
		c.done++
		r[1]++
	}
	c.rules[rule] = r
	fname := "?"
	if fn != nil {
		fname = fn.String()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	if !c.sampled[rule] && ok {
		c.sampled[rule] = true
		c.samples = append(c.samples, fmt.Sprintf("%s: %s: %s holds at %s", rule, fname, construct, c.w.pos(pos)))
	}
	if !ok {
		key := rule + "|" + strings.TrimPrefix(fname, modulePath+"/") + "|" + construct
		if !c.seen[key] {
			c.seen[key] = true
			c.finds = append(c.finds, Finding{Rule: rule, Key: key, At: c.w.pos(pos), Func: fname, Msg: fmt.Sprintf(format, args...)})
		}
	}
	return ok
}

// obPath is ob with the abstract path attached to the finding.
func (c *Ctx) obPath(ok bool, rule string, p *Path, pos token.Pos, construct string, format string, args ...any) bool {
	n := len(c.finds)
	c.ob(ok, rule, p.Fn, pos, construct, format, args...)
	if len(c.finds) > n {
		c.finds[n].Path = c.describe(p)
	}
	return ok
}

func (c *Ctx) describe(p *Path) []string {
	var out []string
	for _, f := range p.St.factList() {
		out = append(out, "assuming "+clip(f.String()))
	}
	for _, e := range p.Ev {
		if e.Kind == "store" || e.Kind == "load" {
			continue
		}
		out = append(out, c.w.pos(e.Pos)+": "+clip(e.String()))
	}
	return out
}
func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// missing anchors make the property undecidable, which isn't a pass
func (c *Ctx) missing(what string) {
	c.ob(false, "anchor", nil, token.NoPos, what, "%s isn't found in the program, so the rule can't be decided", what)
}

func (c *Ctx) count(rule string, n, floor int) {
	c.ob(n >= floor, "coverage", nil, token.NoPos, rule, "the rule %q found %d constructs to check, fewer than the %d it's known to have", rule, n, floor)
}

// ---- paths

type Path struct {
	In   *Interp
	St   *State
	Fn   *ssa.Function
	Rets []Val
	End  string
	Ev   []*Event
	Err  Val // the last result, if it's an error
}

// OK: the function returns and its error, if any, is nil.
func (p *Path) OK() bool {
	return p.End == "" && (p.Err == nil || p.St.isNil(p.Err) == 1)
}

// Run executes the function abstractly. The paths whose error isn't known to be
// nil or not are split.
func (c *Ctx) run(in *Interp, fn *ssa.Function, args, binds []Val, st *State) (out []*Path) {
	if st == nil {
		st = in.NewState()
	}
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(abort)
			if !ok {
				panic(r)
			}
			c.ob(false, "analysable", fn, token.NoPos, "analysis of "+fn.String(), "the function can't be analysed: %s", a.msg)
		}
	}()
	outs := in.RunIn(fn, args, binds, st)
	for f := range in.funcs {
		c.fns[f.String()] = true
	}
	for u := range in.unknown {
		c.unknown[u] = true
	}
	res := fn.Signature.Results()
	isErr := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), tError)
	for _, o := range outs {
		p := &Path{In: in, St: o.st, Fn: fn, Rets: o.rets, End: o.end, Ev: o.st.events()}
		if o.end == "" && isErr {
			p.Err = o.rets[len(o.rets)-1]
			if p.St.isNil(p.Err) == 0 {
				q := *p
				q.St = p.St.clone()
				q.St.addFact(app("isnil", p.Err), false)
				out = append(out, &q)
				p.St.addFact(app("isnil", p.Err), true)
			}
		}
		out = append(out, p)
	}
	c.paths += len(out)
	for _, p := range out {
		c.evs += len(p.Ev)
	}
	return out
}

// okPaths returns the paths that return successfully.
func okPaths(ps []*Path) (out []*Path) {
	for _, p := range ps {
		if p.OK() {
			out = append(out, p)
		}
	}
	return
}

// walk visits the events of a path, those of loop iterations too. up lists the
// enclosing iterations.
func walk(evs []*Event, up []*IterPath, f func(e *Event, up []*IterPath)) {
	for _, e := range evs {
		f(e, up)
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				walk(it.Events, append(append([]*IterPath{}, up...), it), f)
			}
		}
	}
}

// named finds a named type of the module.
func (c *Ctx) named(pkg, name string) *types.Named {
	p := c.w.Pkg(pkg)
	if p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			if n, ok := o.Type().(*types.Named); ok {
				return n
			}
		}
	}
	c.missing("type " + pkg + "." + name)
	return nil
}

// impl finds the only implementation of an interface of the module.
func (c *Ctx) impl(pkg, iface string) types.Type {
	n := c.named(pkg, iface)
	if n == nil {
		return nil
	}
	t := c.w.implementor(n)
	if t == nil {
		c.missing("the implementation of " + pkg + "." + iface)
	}
	return t
}

// meth finds a method with a body.
func (c *Ctx) meth(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	fn := c.w.method(t, name)
	if fn == nil || fn.Blocks == nil {
		c.missing("method " + name + " of " + t.String())
		return nil
	}
	return fn
}
func (c *Ctx) fn(name string) *ssa.Function {
	fn := c.w.Fn(name)
	if fn == nil || fn.Blocks == nil {
		c.missing("function " + name)
		return nil
	}
	return fn
}

// ---- running

type Rule struct {
	ID    string
	Run   func(c *Ctx)
	What  string // the rule applied
	Trust []string
}

var rules = map[string]*Rule{}

func register(id, what string, run func(c *Ctx), trust ...string) {
	rules[id] = &Rule{id, run, what, trust}
}

var baseTrust = []string{
	"go/types and go/ssa (golang.org/x/tools) represent the program faithfully",
	"models of the standard library calls listed in analyzer/models.go (bufio, encoding/binary, io, os, errors, sync, context)",
	"integers don't overflow, except for explicit conversions to narrower types",
}

type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// limit on the time that deciding a property may take. It's normally decided in
// seconds.
const limit = 10 * time.Minute

// decide runs a check. What can't be decided is a violation: if the analysis
// breaks down or doesn't end, nothing has been shown.
func decide(w *World, id string, run func(*Ctx)) *Ctx {
	done := make(chan *Ctx, 1)
	undecided := func(c *Ctx, msg string) *Ctx {
		c.oblig++
		c.finds = append(c.finds, Finding{Rule: "decidable", Key: "decidable", At: "?", Msg: msg})
		return c
	}
	go func() {
		c := newCtx(w, id)
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "%v\n%s", r, debug.Stack())
				undecided(c, fmt.Sprintf("the analysis fails: %v", r))
			}
			done <- c
		}()
		run(c)
	}()
	select {
	case c := <-done:
		return c
	case <-time.After(limit):
		return undecided(newCtx(w, id), "the analysis doesn't end in time")
	}
}

func checkCmd(w *World, id, out string, loadErr error) int {
	start := time.Now()
	r := rules[id]
	if r == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	c := newCtx(w, id)
	if loadErr != nil {
		c.oblig++
		c.finds = append(c.finds, Finding{Rule: "load", Key: "load", At: "?", Msg: loadErr.Error()})
		c.w = &World{}
	} else {
		c = decide(w, id, r.Run)
	}
	known := knownFindings(filepath.Join(filepath.Dir(out), "..", "known-findings.txt"), id)
	var bad []Finding
	nKnown := 0
	sort.Slice(c.finds, func(i, j int) bool { return c.finds[i].Key < c.finds[j].Key })
	for _, f := range c.finds {
		if d, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", id, d, f.Key, f.At)
			nKnown++
			continue
		}
		bad = append(bad, f)
	}
	var fns, ext []string
	for f := range c.fns {
		fns = append(fns, strings.TrimPrefix(f, modulePath+"/"))
	}
	for f := range c.unknown {
		ext = append(ext, f)
	}
	sort.Strings(fns)
	sort.Strings(ext)
	byRule := map[string]string{}
	for k, v := range c.rules {
		byRule[k] = fmt.Sprintf("%d obligations, %d discharged", v[0], v[1])
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := Evidence{Property: id, Tier: tier, Seed: seed, Level: "other",
		Coverage: map[string]any{
			"explanation":               r.What,
			"obligations":               c.oblig,
			"discharged":                c.done,
			"obligations_by_rule":       byRule,
			"functions_analysed":        len(fns),
			"functions":                 fns,
			"abstract_paths":            c.paths,
			"abstract_events":           c.evs,
			"samples":                   c.samples,
			"known_findings_matched":    nKnown,
			"external_functions_opaque": ext,
		},
		Assumptions: append(append([]string{}, baseTrust...), r.Trust...),
		WallS:       time.Since(start).Seconds(), Violations: len(bad)}
	if c.samples == nil {
		ev.Coverage["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(out), 0755)
	if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d abstract paths\n", id, c.oblig, c.done, len(fns), c.paths)
	if len(bad) == 0 {
		return 0
	}
	rep := strings.TrimSuffix(out, ".json") + ".violation.json"
	b, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(rep, b, 0644)
	for _, f := range bad {
		fmt.Printf("%s: [%s] %s: %s\n", f.At, f.Rule, f.Func, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

// knownFindings reads the lines "known: property=<id> key=<key> :: <description>".
func knownFindings(file, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		if k, d, ok := strings.Cut(rest, " :: "); ok {
			res[strings.TrimSpace(k)] = strings.TrimSpace(d)
		}
	}
	return res
}
