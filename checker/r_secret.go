package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- credentials are not shown

var secretFields = map[string]bool{"AccessToken": true, "RefreshToken": true, "Access": true, "Refresh": true, "ClientSecret": true, "PersonalAccessToken": true}

// ownsSecrets: a type of the downloads, or of what authorises them
func ownsSecrets(st types.Type) bool {
	n := namedOf(st)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == modPath+"/cmd/download" || p == "golang.org/x/oauth2"
}

func secretField(a *Term) bool {
	if a.Op != OFld {
		return false
	}
	st := deref(a.Args[0].Typ)
	if st == nil || !ownsSecrets(st) {
		return false
	}
	return secretFields[fieldOnly(a)]
}

func fieldOnly(a *Term) string {
	s := a.Aux
	if i := strings.LastIndex(s, "#"); i >= 0 {
		s = s[:i]
	}
	return s[strings.LastIndex(s, ".")+1:]
}

// bearsSecret: showing a value of the type shows secrets in it
func bearsSecret(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return bearsSecret(u.Elem(), seen)
	case *types.Slice:
		return bearsSecret(u.Elem(), seen)
	case *types.Array:
		return bearsSecret(u.Elem(), seen)
	case *types.Map:
		return bearsSecret(u.Elem(), seen)
	case *types.Struct:
		n := namedOf(t)
		if n != nil && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && n.Obj().Pkg().Path() != "golang.org/x/oauth2" {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if secretFields[u.Field(i).Name()] && isStringT(u.Field(i).Type()) && (n == nil || ownsSecrets(t)) || bearsSecret(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func bears(t *Term) bool {
	u := unIface(t)
	return bearsSecret(u.Typ, map[types.Type]bool{}) || bearsSecret(t.Typ, map[types.Type]bool{})
}

// secretIn: what in the text should not be seen
func secretIn(p *Path, text *Term, more map[*Term]bool) *Term {
	var found *Term
	text.any(func(t *Term) bool {
		if found != nil {
			return true
		}
		switch {
		case more[t]:
			found = t
		case isLoad(t) && secretField(t.Args[0]):
			found = t
		case t.Op == OField && t.Typ != nil && isStringT(t.Typ) && ownsSecrets(t.Args[0].Typ) && bears(t.Args[0]):
			if st, ok := t.Args[0].Typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if t.Aux == itoa(i) && secretFields[st.Field(i).Name()] {
						found = t
					}
				}
			}
		case t.Op == OCall && strings.HasPrefix(t.Aux, "fmt:") && len(t.Args) > 0 && !strings.HasPrefix(t.Aux, "fmt:%T") && !strings.HasPrefix(t.Aux, "fmt:%p") && (bears(t.Args[0]) || holdsSecret(p, t.Args[0], more, map[*Term]bool{})):
			found = t
		case t.Op == OCall && len(t.Args) > 0 && !strings.HasPrefix(t.Aux, "fmt:") && holdsSecret(p, t.Args[0], more, map[*Term]bool{}):
			found = t
		}
		return found != nil
	})
	return found
}

// holdsSecret: a secret was put into the map, list or structure made here
func holdsSecret(p *Path, t *Term, more, seen map[*Term]bool) bool {
	t = unIface(t)
	if t == nil || seen[t] || t.Op == OConst {
		return false
	}
	seen[t] = true
	for _, x := range t.Args {
		if t.Op == OSlice && holdsSecret(p, x, more, seen) {
			return true
		}
	}
	for _, w := range p.writesSince(nil) {
		if w.addr == t || len(w.addr.Args) == 0 || w.addr.Args[0] != t {
			continue
		}
		v := unIface(w.val)
		if v == nil {
			continue
		}
		if bears(v) || secretIn(p, v, more) != nil || holdsSecret(p, v, more, seen) {
			return true
		}
		for _, a := range w.addr.Args[1:] {
			if secretIn(p, a, more) != nil {
				return true
			}
		}
	}
	// or by a method of the library
	for _, ev := range p.Events() {
		if ev.Kind != "call" || ev.Fn == nil || inRepo(ev.Fn) || ev.Fn.Signature.Recv() == nil || len(ev.Args) < 2 || unIface(ev.Args[0]) != t {
			continue
		}
		for _, a := range ev.Args[1:] {
			if bears(a) || secretIn(p, a, more) != nil {
				return true
			}
		}
	}
	return false
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

var bankHost = regexp.MustCompile(`^https://[a-z0-9.-]+\.[a-z]+/`)

func checkSecrets(r *Report) {
	load, save := lookup("cmd/utils.LoadFromFile"), lookup("cmd/utils.SaveToFile")
	var fs []*ssa.Function
	for _, f := range allFuncs {
		if !inRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		if relPkg(pkgOf(f)) == "cmd/download" || f == load || f == save {
			fs = append(fs, f)
		}
	}
	flags := 0
	for _, f := range fs {
		c := shortFn(f)
		e := r.runFn(f, nil, askConfig("cmd/utils.LoadFromFile", "cmd/utils.SaveToFile", "cmd/download.CaptureCode"))
		paths := append([]*Path{}, e.Paths...)
		for _, p := range paths {
			more := map[*Term]bool{}
			// what holds credentials here
			for i, q := range f.Params {
				switch {
				case isValues(q.Type()):
					more[param(f, i)] = true
				case (f == load || f == save) && types.IsInterface(q.Type()):
					more[param(f, i)] = true
				case q.Type().String() == "*net/http.Request":
					more[param(f, i)] = true
				}
			}
			var resp *Term
			posts := false
			hide := func(t *Term) {
				if t != nil {
					more[t] = true
				}
			}
			for _, ev := range p.Events() {
				if ev.Kind == "panic" {
					continue
				}
				if ev.Kind != "call" {
					continue
				}
				switch {
				case ev.is("cmd/download.CaptureCode"):
					hide(ev.part(0))
				case isRequest(ev.Name):
					resp, posts = ev.part(0), strings.HasSuffix(ev.Name, "PostForm") || strings.HasSuffix(ev.Name, ".Post")
				case suffix(ev, "ioutil.ReadAll", "io.ReadAll"):
					// the answer to a request for a token has the token, if it is one
					if f == load || posts && resp != nil && !(statusFact(p, resp, 200, false) && statusFact(p, resp, 201, false)) {
						hide(ev.part(0))
					}
				case suffix(ev, "json.Marshal", "json.MarshalIndent"):
					if bears(ev.Args[0]) || f == save {
						hide(ev.part(0))
					}
				case ev.Name == "print":
					x := secretIn(p, ev.Args[1], more)
					r.need(x == nil, "not-shown", c+": output", ev.Pos, "a secret is shown: %v", x)
				case suffix(ev, "log.Printf", "log.Println", "log.Print", "log.Fatal", "log.Fatalf", "log.Panicf"):
					for _, a := range ev.Args {
						x := secretIn(p, a, more)
						r.need(x == nil && !bears(a), "not-shown", c+": log", ev.Pos, "a secret is logged: %v", x)
					}
				case strings.Contains(ev.Name, "pflag.FlagSet).") && len(ev.Args) >= 3 && anyOf(ev.Args, secretField):
					flags++
					name := (*Term)(nil)
					var val *Term
					for i, a := range ev.Args {
						if secretField(a) && i+1 < len(ev.Args) {
							name = ev.Args[i+1]
							val = a
						}
					}
					ok := false
					for _, w := range p.writesSince(nil) {
						if w.addr.Op != OFld || !strings.Contains(w.addr.Aux, "pflag.Flag.DefValue#") {
							continue
						}
						at := w.addr.Args[0]
						for _, x := range p.Events() {
							if x.Kind == "call" && strings.HasSuffix(x.Name, "pflag.FlagSet).Lookup") && x.part(0) == at && x.Args[1] == name {
								ok = w.val == cStr("")
							}
						}
					}
					r.need(ok, "help", c+": "+fieldOnly(val), ev.Pos, "help shows the secret that is configured")
				case isAsking(ev.Fn):
					x := secretIn(p, ev.Args[1], more)
					r.need(x == nil, "not-shown", c+": address", ev.Pos, "a secret is part of an address, which errors show: %v", x)
					consts, _ := pieces(ev.Args[1])
					r.need(len(consts) > 0 && bankHost.MatchString(consts[0]) || f.Parent() == nil && isAsking(f) && ev.Args[1] == param(f, 1), "safe-channel", c+": "+shortName(ev.Name), ev.Pos, "credentials are sent to an address that is not a fixed host by https: %v", ev.Args[1])
				}
			}
			// errors, returned or kept
			errs := func(t *Term) {
				t.any(func(x *Term) bool {
					if x.Op == OFresh && (x.name() == "fmt.Errorf" || x.name() == "errors.New") {
						for _, a := range x.Args {
							s := secretIn(p, a, more)
							r.need(s == nil, "not-shown", c+": error", p.Pos, "an error has a secret in its text: %v", s)
						}
					}
					return false
				})
			}
			for _, x := range p.Results {
				errs(x)
			}
			for _, w := range p.writesSince(nil) {
				errs(w.val)
			}
			if p.Kind == "panic" {
				for _, x := range p.Results {
					s := secretIn(p, x, more)
					r.need(s == nil, "not-shown", c+": panic", p.Pos, "a panic shows a secret: %v", s)
				}
			}
		}
	}
	r.need(flags >= 3, "help", "flags", noPos, "%d settings found for secrets, expected 3", flags)
	r.atLeast("not-shown", 40)
	r.atLeast("safe-channel", 8)
	// what asks, asks at the address it is given (response-checks), so nothing else is sent credentials
	for _, f := range allFuncs {
		if !inRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		for _, in := range callsOf(f, func(n string, _ *ssa.Function) bool { return isRequest(n) }) {
			r.need(isAsking(f) || relPkg(pkgOf(f)) == "cmd/web", "safe-channel", shortFn(f)+": request", in.Pos(), "a request is made without saying where to")
		}
	}
}

func isValues(t types.Type) bool { return t.String() == "net/url.Values" }

func anyOf(ts []*Term, f func(*Term) bool) bool {
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}
