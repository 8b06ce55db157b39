package main

// The configuration: where its values come from, and what is made of them.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "Every path of the function that makes the configuration, for each of the twelve classes of environment and defaults (host empty or not; port absent or no number, negative, or usable; defaults given or not) that its conditions allow: the host and the port in the configuration are the ones the class calls for. Every path that makes the application's server: its address is the host, a colon and the port of the configuration given, and the program gives it the configuration made from the environment. Every path that makes the registry: the data directory is empty, or the one in the environment that ends with a slash, or the one in the environment followed by a slash.", configRules,
		"strconv.Atoi fails for everything that isn't a number, and for nothing else but numbers that don't fit an int")
}

func configRules(c *Ctx) {
	h := newApp(c)
	cfg := c.named("api/shard", "Config")
	if h == nil || cfg == nil {
		return
	}
	var host, port leaf
	for _, l := range leaves(cfg) {
		if b, ok := l.t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 && host.t == nil {
				host = l
			} else if b.Info()&types.IsInteger != 0 && port.t == nil {
				port = l
			}
		}
	}
	if host.t == nil || port.t == nil {
		c.missing("the host and the port in the configuration")
		return
	}
	c.environment(cfg, host, port)
	c.address(h, cfg, host, port)
	c.configGiven()
	c.dataDirectory()
}

func getenv(name string) Val {
	return appT(types.Typ[types.String], "fn:os.Getenv", Str(name))
}

// parsed is the term of a number parsed from a text, and its error.
func parsed(st *State, roots []Val, text Val) (v, err Val) {
	see := func(x Val) {
		visit(x, func(y Val) {
			a, ok := y.(*App)
			if !ok || len(a.Args) == 0 || a.Args[0].Key() != text.Key() {
				return
			}
			op := strings.TrimPrefix(a.Op, "fn1:")
			op = strings.TrimPrefix(op, "fn:")
			switch op {
			case "strconv.Atoi":
			case "strconv.ParseInt":
				base, ok1 := constInt(a.Args[1])
				bits, ok2 := constInt(a.Args[2])
				if !ok1 || !ok2 || base != 10 || bits != 0 && bits != 64 {
					return
				}
			default:
				return
			}
			v, err = app("fn:"+op, a.Args...), app("fn1:"+op, a.Args...)
		})
	}
	for _, f := range st.factList() {
		see(f.C)
	}
	for _, r := range roots {
		see(r)
	}
	return v, err
}

// visit calls f for every term inside a term.
func visit(v Val, f func(Val)) {
	if v == nil {
		return
	}
	f(v)
	switch x := v.(type) {
	case *App:
		for _, a := range x.Args {
			visit(a, f)
		}
	case *Lin:
		for _, n := range x.names {
			visit(x.Atom[n], f)
		}
	case *Iface:
		visit(x.V, f)
	}
}

// environment decides the function that makes the configuration from the
// environment.
func (c *Ctx) environment(cfg *types.Named, host, port leaf) {
	var fn *ssa.Function
	for _, f := range c.w.Funcs {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Synthetic != "" || f.Blocks == nil || f.Object() == nil || !f.Object().Exported() || !isModule(fnPkg(f)) || f.Signature.Results().Len() != 1 || !types.Identical(deptr(f.Signature.Results().At(0).Type()), cfg) {
			continue
		}
		if fn != nil {
			c.ob(false, "environment", f, token.NoPos, f.Name(), "there are two functions that make a configuration, %s and %s", fn.Name(), f.Name())
			return
		}
		fn = f
	}
	if fn == nil {
		c.missing("the function that makes the configuration")
		return
	}
	in := NewInterp(c.w, Config{})
	args := in.args(fn, "")
	var given Val
	for i, p := range fn.Params {
		if types.Identical(deptr(p.Type()), cfg) {
			given = args[i]
		}
	}
	if given == nil {
		c.missing("the defaults of the configuration")
		return
	}
	st0 := in.NewState()
	field := func(st *State, v Val, l leaf) Val { return in.fieldVal(st, v, l) }
	var defHost, defPort Val
	if in.deref(given) != nil {
		defHost, defPort = field(st0, given, host), field(st0, given, port)
	}
	eh, ep := getenv("REC_HOST"), getenv("REC_PORT")
	n, cases := 0, 0
	builtHost, builtPort := "", int64(-1)
	for _, q := range c.run(in, fn, args, nil, nil) {
		if q.End != "" || len(q.Rets) != 1 {
			c.obPath(false, "environment", q, fn.Pos(), "end", "making the configuration ends with %s", q.End)
			continue
		}
		n++
		H, P := field(q.St, q.Rets[0], host), field(q.St, q.Rets[0], port)
		if H == nil || P == nil {
			c.obPath(false, "environment", q, fn.Pos(), "result", "no configuration is made")
			continue
		}
		num, err := parsed(q.St, []Val{P}, ep)
		if num == nil {
			num, err = app("fn:strconv.Atoi", ep), app("fn1:strconv.Atoi", ep)
		}
		for k := 0; k < 2*3*2; k++ {
			hostSet, portCase, nilDefaults := k%2 == 1, k/2%3, k/6 == 1
			facts := []Fact{{strEq(eh, Str("")), !hostSet}, {app("isnil", given), nilDefaults}}
			switch portCase {
			case 0: // usable
				facts = append(facts, Fact{strEq(ep, Str("")), false}, Fact{app("isnil", err), true}, Fact{le0(neg(num)), true})
			case 1: // negative
				facts = append(facts, Fact{strEq(ep, Str("")), false}, Fact{app("isnil", err), true}, Fact{le0(addc(num, 1)), true})
			case 2: // absent or no number
				facts = append(facts, Fact{app("isnil", err), false})
			}
			st := q.St.clone()
			for _, f := range []Fact{{eqInt(lenTerm(eh), Int(0)), !hostSet}, {eqInt(lenTerm(ep), Int(0)), portCase == 2}} {
				// what is known about the length, if anything
				if d := st.decide(f.C); d != 0 && (d == 1) != f.Truth && !(f.C.Key() == eqInt(lenTerm(ep), Int(0)).Key() && portCase == 2) {
					facts = append(facts, Fact{True, false})
				}
			}
			if !assume(st, facts, nil) {
				continue
			}
			cases++
			what := [...]string{"usable", "negative", "unusable"}[portCase]
			switch {
			case hostSet:
				c.obPath(same(H, eh), "host", q, fn.Pos(), "environment", "the host is %s although there is one in the environment", show(H))
			case !nilDefaults:
				c.obPath(same(H, defHost), "host", q, fn.Pos(), "defaults", "the host is %s although there is none in the environment and a default is given", show(H))
			default:
				s, ok := constStr(H)
				c.obPath(ok && s != "" && (builtHost == "" || builtHost == s), "host", q, fn.Pos(), "built-in", "the host is %s although there is neither one in the environment nor a default", show(H))
				builtHost = s
			}
			switch {
			case portCase == 0:
				c.obPath(same(P, num), "port", q, fn.Pos(), "environment", "the port is %s although there is a usable one in the environment", show(P))
			case !nilDefaults:
				c.obPath(same(P, defPort), "port", q, fn.Pos(), "defaults "+what, "the port is %s although the one in the environment is %s and a default is given", show(P), what)
			default:
				p, ok := constInt(P)
				c.obPath(ok && p >= 0 && p < 1<<16 && (builtPort < 0 || builtPort == p), "port", q, fn.Pos(), "built-in "+what, "the port is %s although the one in the environment is %s and no default is given", show(P), what)
				builtPort = p
			}
		}
		// the defaults stay as they are
		if in.deref(given) != nil && q.St.isNil(given) != 1 {
			for _, l := range []leaf{host, port} {
				c.obPath(same(field(q.St, given, l), field(st0, given, l)), "defaults", q, fn.Pos(), l.path[1:], "the defaults are changed")
			}
		}
	}
	c.count("paths making the configuration", n, 2)
	c.count("cases of the environment decided", cases, 12)
}

// hostPort: the value is the host, a colon and the port of a configuration.
func (c *Ctx) hostPort(in *Interp, v, cfg Val, host, port leaf) bool {
	st := in.NewState()
	want := concatStr(in.fieldVal(st, cfg, host), Str(":"), decimal(in.fieldVal(st, cfg, port)))
	return same(v, want)
}

// address decides what the server listens on.
func (c *Ctx) address(h *httpCheck, cfg *types.Named, host, port leaf) {
	fn := h.app.Fn
	var given Val
	for i, p := range fn.Params {
		v := h.in.args(fn, "app.")[i]
		if types.Identical(deptr(p.Type()), cfg) {
			given = v
		}
		if st, ok := deptr(p.Type()).Underlying().(*types.Struct); ok {
			for j := 0; j < st.NumFields(); j++ {
				if types.Identical(deptr(st.Field(j).Type()), cfg) {
					if pt := h.in.deref(v); pt != nil {
						f := mkPtr(pt.O, pt.Path+fieldPath(st, j))
						given = f
						if _, isPtr := st.Field(j).Type().Underlying().(*types.Pointer); isPtr {
							given = h.in.NewState().load(f, st.Field(j).Type())
						}
					}
				}
			}
		}
	}
	srv, _ := h.server()
	if given == nil || srv == nil {
		c.missing("the configuration given to the application")
		return
	}
	addr := h.app.St.load(mkPtr(srv.O, srv.Path+".Addr"), types.Typ[types.String])
	c.obPath(c.hostPort(h.in, addr, given, host, port), "address", h.app, fn.Pos(), "server", "the address of the server is %s", show(addr))
	// the methods of the configuration that give it
	n := 0
	for _, m := range c.w.Funcs {
		recv := m.Signature.Recv()
		if recv == nil || m.Synthetic != "" || m.Blocks == nil || !types.Identical(deptr(recv.Type()), cfg) || m.Object() == nil || !m.Object().Exported() || m.Name() != "GetHostPort" || m.Signature.Results().Len() != 1 {
			continue
		}
		in := NewInterp(c.w, Config{})
		args := in.args(m, "c.")
		for _, q := range c.run(in, m, args, nil, nil) {
			n++
			c.obPath(q.End == "" && c.hostPort(in, q.Rets[0], args[0], host, port), "address", q, m.Pos(), m.Name(), "%s isn't the host, a colon and the port", m.Name())
		}
	}
	c.count("methods giving the address", n, 1)
}

// configGiven: the server that the program makes listens where the environment
// says.
func (c *Ctx) configGiven() {
	s := newStartup(c)
	if s == nil {
		return
	}
	var srvT types.Type
	for _, p := range c.w.Packages() {
		for _, i := range p.Pkg.Imports() {
			if i.Path() == "net/http" {
				srvT = types.NewPointer(i.Scope().Lookup("Server").Type())
			}
		}
	}
	if srvT == nil {
		c.missing("the type of the server")
		return
	}
	n := 0
	eh, ep := getenv("REC_HOST"), getenv("REC_PORT")
	for _, q := range s.paths {
		srvs := map[string]Val{}
		for _, e := range q.Ev {
			if s.serves(e) {
				if isServe(e) {
					s.reachable(q.St, e.Obj, srvT, srvT, 5, srvs)
				}
				if e.Kind == "go" {
					s.reachable(q.St, e.Obj, nil, srvT, 6, srvs)
					if fn := goroutine(e); fn != nil {
						for i, p := range fn.Params {
							if i < len(e.Args) {
								s.reachable(q.St, e.Args[i], p.Type(), srvT, 6, srvs)
							}
						}
					}
				}
			}
		}
		for _, v := range srvs {
			p := s.in.deref(v)
			addr := q.St.load(mkPtr(p.O, p.Path+".Addr"), types.Typ[types.String])
			n++
			num, err := parsed(q.St, []Val{addr}, ep)
			if num == nil {
				num, err = app("fn:strconv.Atoi", ep), app("fn1:strconv.Atoi", ep)
			}
			unset := q.St.decide(strEq(eh, Str(""))) == 1 || q.St.decide(eqInt(lenTerm(eh), Int(0))) == 1
			useless := q.St.decide(app("isnil", err)) == -1 || q.St.decide(le0(addc(num, 1))) == 1 || q.St.decide(strEq(ep, Str(""))) == 1
			H, P := eh, num
			a, ok := isApp(addr, "concat")
			host, port := "", Val(nil)
			if ok && len(a.Args) > 1 {
				if s, isText := constStr(a.Args[0]); isText && strings.HasSuffix(s, ":") {
					host = strings.TrimSuffix(s, ":")
				}
				if x, isNum := isApp(a.Args[len(a.Args)-1], "fn:strconv.Itoa"); isNum {
					port = x.Args[0]
				}
			}
			if unset {
				H = Str(host)
			}
			if useless && port != nil {
				_, isConst := constInt(port)
				c.obPath(isConst, "given", q, q.Fn.Pos(), "port", "the server listens at the port %s although there is none in the environment", show(port))
				P = port
			}
			want := concatStr(H, Str(":"), decimal(P))
			c.obPath(same(addr, want) && (!unset || host != ""), "given", q, q.Fn.Pos(), "address", "the server listens at %s", show(addr))
		}
	}
	c.count("servers made by the program", n, 4)
}

// dataDirectory: the data directory ends with a slash unless it is empty.
func (c *Ctx) dataDirectory() {
	r := newRegistry(c)
	if r == nil {
		return
	}
	env := getenv("REC_PATH")
	n := 0
	for _, fn := range c.w.Funcs {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" || fn.Signature.Results().Len() == 0 || !types.Identical(fn.Signature.Results().At(0).Type(), r.svc) {
			continue
		}
		for _, q := range c.run(r.in, fn, r.in.args(fn, ""), nil, nil) {
			if !q.OK() {
				continue
			}
			found := false
			for _, l := range leaves(deptr(r.svc)) {
				if b, ok := l.t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					continue
				}
				v := r.in.fieldVal(q.St, q.Rets[0], l)
				if v == nil {
					continue
				}
				found = true
				ends := q.St.decide(eqInt(appT(types.Typ[types.Uint8], "elem", env, addc(lenTerm(env), -1)), Int('/'))) == 1 || q.St.decide(app("fn:strings.HasSuffix", env, Str("/"))) == 1
				empty := q.St.decide(strEq(env, Str(""))) == 1 || q.St.decide(eqInt(lenTerm(env), Int(0))) == 1
				full := q.St.decide(strEq(env, Str(""))) == -1 || q.St.decide(eqInt(lenTerm(env), Int(0))) == -1
				s, isConst := constStr(v)
				switch {
				case same(v, concatStr(env, Str("/"))):
					c.obPath(full && !ends, "directory", q, fn.Pos(), "slash", "a slash is added to a data directory that may be empty or have one")
				case same(v, env):
					c.obPath(ends || empty, "directory", q, fn.Pos(), "as is", "no slash is added to a data directory that may need one")
				default:
					c.obPath(isConst && s == "" && empty, "directory", q, fn.Pos(), "other", "the data directory is %s", show(v))
				}
				n++
			}
			c.obPath(found, "directory", q, fn.Pos(), "none", "no data directory is kept")
		}
	}
	c.count("data directories", n, 2)
}
