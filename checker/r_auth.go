package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what a download is authorised by

func isExchange(n string) bool { return strings.HasSuffix(n, "oauth2.Config).Exchange") }

func checkAuth(r *Report) {
	// who exchanges codes is one that makes a client, or does it for one
	makers := clientMakers()
	r.need(len(makers) >= 3, "anchor", "cmd/download", noPos, "%d functions found that load the state of a download, expected 3", len(makers))
	under := map[*ssa.Function]bool{}
	for _, f := range makers {
		under[f] = true
		for g := range reach(f) {
			under[g] = true
		}
	}
	n := 0
	for _, f := range allFuncs {
		if inRepo(f) && len(f.Blocks) > 0 && f.Synthetic == "" && len(callsOf(f, func(n string, _ *ssa.Function) bool { return isExchange(n) })) > 0 {
			n++
			r.need(under[f], "code-state", shortFn(f), f.Pos(), "a code is exchanged where it is not known what for")
		}
	}
	r.need(n > 0, "code-state", "exchange", noPos, "no code is ever exchanged for a token")
	for _, f := range makers {
		checkMaker(r, f)
	}
	r.atLeast("code-state", 3)
	r.atLeast("token-saved", 2)
	r.atLeast("token-current", 1)
	r.atLeast("client-credentials", 5)
	checkCapture(r)
}

func clientMakers() (fs []*ssa.Function) {
	for _, f := range allFuncs {
		if !inRepo(f) || relPkg(pkgOf(f)) != "cmd/download" || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil || f.Signature.Results().Len() != 2 {
			continue
		}
		ct := f.Signature.Results().At(0).Type()
		if fieldIdx(deref(ct), "data") >= 0 && fieldIdx(deref(ct), "file") >= 0 {
			fs = append(fs, f)
		}
	}
	return
}

// unguessable: the text is made of at least 16 bytes that came from crypto/rand
func unguessable(p *Path, s *Term, before *Event) bool {
	for _, ev := range p.Events() {
		if ev == before {
			break
		}
		var b *Term
		switch {
		case ev.Kind != "call":
			continue
		case ev.Name == "crypto/rand.Read" && len(ev.Args) == 1:
			b = ev.Args[0]
		case ev.Name == "io.ReadFull" && len(ev.Args) == 2 && strings.Contains(ev.Args[0].String(), "rand.Reader"):
			b = ev.Args[1]
		default:
			continue
		}
		if !p.isNil(ev.err()) || p.facts.decide(cmp0("<", nSub(mkLen(b), cInt(16)))) != -1 {
			continue
		}
		// the text is these bytes as they are, or as digits or letters
		t := s
		now := bytesNow(justAfter(p, ev), p.facts, b)
		if t.Op == OCall && len(t.Args) > 1 && (strings.HasPrefix(t.Aux, "fmt:%x") || strings.HasPrefix(t.Aux, "fmt:%X")) && t.Args[0] == b && t.Args[1] == now {
			return true
		}
		for _, x := range p.calls(named("hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString", "(*encoding/base32.Encoding).EncodeToString")) {
			y := x.Args[len(x.Args)-1]
			if x.part(0) == t && y == b && bytesNow(x.Mem, p.facts, y) == now {
				return true
			}
		}
	}
	return false
}

func checkMaker(r *Report, f *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, askConfig("cmd/utils.LoadFromFile", "cmd/utils.SaveToFile", "cmd/download.CaptureCode"))
	for _, p := range e.Paths {
		if p.Kind == "panic" {
			continue
		}
		var captured, urled, seen, ld *Event
		var shown bool
		var tokens []*Event // that gave a new token
		var saves []*Event
		for _, ev := range p.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.is("cmd/utils.LoadFromFile"):
				ld = ev
			case ev.is("cmd/utils.SaveToFile"):
				saves = append(saves, ev)
			case strings.HasSuffix(ev.Name, "oauth2.Config).AuthCodeURL"):
				r.need(urled == nil && unguessable(p, ev.Args[1], ev), "code-state", c+": state", ev.Pos, "the state of the request can be guessed: %v", ev.Args[1])
				urled = ev
			case ev.Name == "print":
				if urled != nil && captured == nil && ev.Args[1].contains(urled.part(0)) {
					shown = true
				}
			case ev.is("cmd/download.CaptureCode"):
				captured = ev
				r.need(urled != nil && shown, "code-state", c+": asked", ev.Pos, "a code is awaited that nobody was asked for")
			case isExchange(ev.Name):
				seen = ev
				ok := captured != nil && urled != nil && p.isNil(captured.err()) &&
					ev.Args[2] == captured.part(0) && urled.Args[0] == ev.Args[0] &&
					p.Holds(cmpT("==", captured.part(1), urled.Args[1], types.Typ[types.String]))
				r.need(ok, "code-state", c, ev.Pos, "a code is exchanged for a token although it may not have come back with the state that was asked with")
				if p.isNil(ev.err()) {
					tokens = append(tokens, ev)
				}
				checkOAuth(r, c, p, ev, f, captured)
			case strings.HasSuffix(ev.Name, "oauth2.TokenSource).Token") || strings.HasSuffix(ev.Name, "Config).TokenSource).Token"):
				if p.isNil(ev.err()) {
					tokens = append(tokens, ev)
				}
			}
		}
		_ = seen
		tokAddr := (*Term)(nil)
		if ld != nil {
			data := unIface(ld.Args[1])
			if fieldIdx(deref(data.Typ), "Token") >= 0 {
				tokAddr = addrOf(data, "Token")
			}
		}
		for _, ev := range tokens {
			if !r.need(tokAddr != nil && ld != nil && p.isNil(ld.err()), "token-saved", c+": state", ev.Pos, "there is no state loaded to keep a token in") {
				continue
			}
			tok := ev.part(0)
			same := false
			was := p.LoadAt(ev.Mem, tokAddr, deref(tokAddr.Typ))
			if was.Typ != nil && fieldIdx(deref(was.Typ), "AccessToken") >= 0 && strings.HasSuffix(ev.Name, ".Token") {
				a := p.LoadAt(ev.Mem, addrOf(tok, "AccessToken"), types.Typ[types.String])
				b := p.LoadAt(ev.Mem, addrOf(was, "AccessToken"), types.Typ[types.String])
				same = p.Holds(cmpT("==", a, b, types.Typ[types.String]))
			}
			kept := false
			after := false
			for _, x := range p.Events() {
				if x == ev {
					after = true
				}
				for _, s := range saves {
					if x == s && after && unIface(s.Args[1]) == unIface(ld.Args[1]) && s.Args[0] == ld.Args[0] &&
						p.LoadAt(s.Mem, tokAddr, deref(tokAddr.Typ)) == tok && (p.isNil(s.err()) || retErr(p) == 1 || len(p.Results) > 0 && p.Results[len(p.Results)-1] == s.err()) {
						kept = true
					}
				}
			}
			r.need(kept || same, "token-saved", c+": "+shortName(ev.Name), ev.Pos, "a token is got that is not saved, or may not have been")
		}
		if p.Kind != "return" || retErr(p) == 1 {
			continue
		}
		checkCredentials(r, c, p, ld, tokAddr, tokens)
	}
}

// checkOAuth: the authorisation is asked for in the name of the configuration, over a safe channel
func checkOAuth(r *Report, c string, p *Path, ev *Event, f *ssa.Function, captured *Event) {
	conf := ev.Args[0]
	at := func(names ...string) *Term { return fieldAt(p, ev.Mem, conf, names...) }
	setting := func(t *Term, name string) bool {
		return isLoad(t) && t.Args[0].Op == OFld && strings.Contains(t.Args[0].Aux, "."+name+"#") && len(f.Params) > 0 && t.Args[0].Args[0] == param(f, 0)
	}
	r.need(setting(at("ClientID"), "ClientID"), "client-credentials", c+": ClientID", ev.Pos, "it is not the configured client that asks: %v", at("ClientID"))
	r.need(setting(at("ClientSecret"), "ClientSecret"), "client-credentials", c+": ClientSecret", ev.Pos, "it is not the configured secret that is used")
	for _, n := range []string{"AuthURL", "TokenURL"} {
		u := at("Endpoint", n)
		r.need(u.isStrC() && strings.HasPrefix(u.strVal(), "https://"), "client-credentials", c+": "+n, ev.Pos, "authorisation is not asked for at a fixed address by https")
	}
	red := at("RedirectURL")
	ok := lineIs(p, red, "^http://(localhost|127.0.0.1):$", role(func(p *Path, t *Term) bool {
		return captured != nil && t.contains(captured.Args[0]) || captured != nil && t == captured.Args[0]
	}), "^/?$")
	r.need(ok, "client-credentials", c+": RedirectURL", ev.Pos, "the answer does not come back to where it is waited for: %v", red)
}

// checkCredentials: on success, the client's requests are made with the credentials configured or kept
func checkCredentials(r *Report, c string, p *Path, ld *Event, tokAddr *Term, tokens []*Event) {
	x := p.Results[0]
	cl := fieldAt(p, p.Mem, x, "client")
	var made *Event
	for _, ev := range p.calls(func(ev *Event) bool {
		return strings.HasSuffix(ev.Name, "oauth2.Config).Client") || strings.HasSuffix(ev.Name, "oauth2.NewClient")
	}) {
		if ev.part(0) == cl {
			made = ev
		}
	}
	var src *Term
	switch {
	case made != nil && strings.HasSuffix(made.Name, "oauth2.Config).Client"):
		tok := made.Args[2]
		now := p.LoadAt(p.Mem, tokAddr, deref(tokAddr.Typ))
		if !r.need(tokAddr != nil && tok == now, "client-credentials", c, made.Pos, "the requests are not made with the token of the state: %v", tok) {
			return
		}
		// which is one just got, or not expired
		ok := false
		for _, t := range tokens {
			if t.part(0) == tok {
				ok = true
			}
			if strings.HasSuffix(t.Name, ".Token") {
				ok = true // known to be the same one (token-saved)
			}
		}
		if !ok && p.notNil(tok) {
			for _, fc := range p.Facts() {
				q := fc.Cond
				if q.Op != OCall || len(q.Args) == 0 {
					continue
				}
				exp := func(t *Term) bool {
					return isLoad(t) && t.Args[0].Op == OFld && strings.Contains(t.Args[0].Aux, "oauth2.Token.Expiry#") && t.Args[0].Args[0] == tok
				}
				now := func(t *Term) bool { return strings.HasPrefix(t.Aux, "time.Now") }
				switch {
				case strings.HasSuffix(q.Aux, "time.Time).Before") && len(q.Args) == 2:
					ok = ok || !fc.Val && exp(q.Args[0]) && now(q.Args[1]) || fc.Val && now(q.Args[0]) && exp(q.Args[1])
				case strings.HasSuffix(q.Aux, "time.Time).After") && len(q.Args) == 2:
					ok = ok || !fc.Val && now(q.Args[0]) && exp(q.Args[1]) || fc.Val && exp(q.Args[0]) && now(q.Args[1])
				case strings.HasSuffix(q.Aux, "oauth2.Token).Valid"):
					ok = ok || fc.Val && q.Args[0] == tok
				}
			}
		}
		r.need(ok, "token-current", c, p.Pos, "requests are made with a token that may have expired, or may not be there")
		return
	case made != nil:
		src = made.Args[1]
	default:
		tr := fieldAt(p, p.Mem, cl, "Transport")
		if u := unIface(tr); u.Typ != nil && fieldIdx(deref(u.Typ), "Source") >= 0 && strings.HasSuffix(u.Typ.String(), "oauth2.Transport") {
			src = fieldAt(p, p.Mem, u, "Source")
		}
	}
	if !r.need(src != nil && src.Op == OIface, "client-credentials", c, p.Pos, "the requests are not made with credentials") {
		return
	}
	who := unIface(src)
	tf := methodOf(who.Typ, "Token")
	if !r.need(tf != nil && len(tf.Blocks) > 0 && inRepo(tf), "client-credentials", c+": source", p.Pos, "it is not known where the credentials are from") {
		return
	}
	// it is the client itself, or its configuration, that gives them
	r.need(who == x || who == fieldAt(p, p.Mem, x, "config"), "client-credentials", c+": source", p.Pos, "the credentials are those of another client")
	checkTokenSource(r, tf)
}

func methodOf(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	n := namedOf(deref(t))
	if n == nil {
		n = namedOf(t)
	}
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	return lookup(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name() + "." + name)
}

// checkTokenSource: what the requests are authorised by
func checkTokenSource(r *Report, f *ssa.Function) {
	c := shortFn(f)
	rec := param(f, 0)
	e := r.runFn(f, nil, askConfig())
	n := 0
	field := func(t *Term, name string) bool {
		return isLoad(t) && t.Args[0].Op == OFld && strings.Contains(t.Args[0].Aux, "."+name+"#")
	}
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		n++
		tok := fieldAt(p, p.Mem, p.Results[0], "AccessToken")
		asks := asksIn(p.Events())
		if fieldIdx(deref(rec.Typ), "PersonalAccessToken") >= 0 {
			r.need(len(asks) == 0 && field(tok, "PersonalAccessToken") && tok.Args[0].Args[0] == rec, "client-credentials", c, p.Pos, "it is not the configured token that is used: %v", tok)
			continue
		}
		kept := fieldAt(p, p.Mem, rec, "data", "Token", "Access")
		if !r.need(tok == kept, "client-credentials", c, p.Pos, "it is not the token of the state that is used: %v", tok) {
			continue
		}
		var got *Event
		for _, ev := range asks {
			if urlIs(p, ev, "^https://ob\\.nordigen\\.com/api/v2/token/new/$") {
				got = ev
			}
		}
		if got != nil {
			ok := p.isNil(got.err())
			t := target(got)
			m := justAfter(p, got)
			ok = ok && tok == p.LoadAt(m, addrOf(t, "Access"), types.Typ[types.String])
			r.need(ok, "token-current", c+": new", got.Pos, "it is not the token just got that is used: %v", tok)
			for key, name := range map[string]string{"secret_id": "ClientID", "secret_key": "ClientSecret"} {
				v := p.LoadAt(got.Mem, mapEntAddr(got.Args[2], key), types.NewSlice(types.Typ[types.String]))
				one := p.Holds(cmp0("=", nSub(mkLen(v), cInt(1))))
				var s *Term
				if one {
					s = p.LoadAt(got.Mem, idxAddr(v, cInt(0), types.Typ[types.String]), types.Typ[types.String])
				}
				r.need(s != nil && field(s, name), "client-credentials", c+": "+key, got.Pos, "a token is not asked for with the configured credentials: %v", s)
			}
			// until when it can be used
			exp := fieldAt(p, p.Mem, rec, "data", "Token", "AccessExpires")
			secs := p.LoadAt(m, addrOf(t, "AccessExpires"), types.Typ[types.Int])
			okx := exp.Op == OCall && strings.HasSuffix(exp.Aux, "time.Time).Add") && strings.HasPrefix(exp.Args[0].Aux, "time.Now") && exp.Args[1] == nMul(cInt(1000000000), secs)
			r.need(okx, "token-current", c+": until", got.Pos, "it is not kept until when the token can be used: %v", exp)
			continue
		}
		// one kept from before: there is one, and it can be used still
		ok := false
		was := fieldAt(p, nil, rec, "data", "Token")
		for _, fc := range p.Facts() {
			q := fc.Cond
			if q.Op != OCall || len(q.Args) != 2 {
				continue
			}
			exp := func(t *Term) bool { return field(t, "AccessExpires") && t.Args[0].Args[0] == was }
			now := func(t *Term) bool { return strings.HasPrefix(t.Aux, "time.Now") }
			switch {
			case strings.HasSuffix(q.Aux, "time.Time).Before"):
				ok = ok || !fc.Val && exp(q.Args[0]) && now(q.Args[1]) || fc.Val && now(q.Args[0]) && exp(q.Args[1])
			case strings.HasSuffix(q.Aux, "time.Time).After"):
				ok = ok || !fc.Val && now(q.Args[0]) && exp(q.Args[1]) || fc.Val && exp(q.Args[0]) && now(q.Args[1])
			}
		}
		r.need(ok && p.notNil(was), "token-current", c+": kept", p.Pos, "a token is used that may have expired, or may not be there")
	}
	r.need(n > 0, "client-credentials", c+": possible", f.Pos(), "it never gives credentials")
}

func mapEntAddr(m *Term, key string) *Term { return T.mk(OMapEnt, "", nil, m, cStr(key)) }

// checkCapture: what comes back is a code and a state of the same request, or an error
func checkCapture(r *Report) {
	f := r.fn("cmd/download.CaptureCode")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	r.need(len(e.panics()) == 0, "no-panic", c, f.Pos(), "waiting for a code can end in a panic")
	good := 0
	for _, p := range e.returns() {
		var serve *Event
		for _, ev := range p.calls(named("(*net/http.Server).ListenAndServe")) {
			r.need(serve == nil, "captured", c, ev.Pos, "a code is waited for more than once")
			serve = ev
		}
		if retErr(p) == 1 {
			continue
		}
		er := p.Results[2]
		if serve != nil && er == serve.err() && !p.Holds(mkEq(er, T.mk(OInit, "", nil))) && !p.isNil(er) {
			continue // the failure to wait
		}
		good++
		if !r.need(serve != nil && isLoad(p.Results[0]) && isLoad(p.Results[1]), "captured", c, p.Pos, "what is given is not what came back") {
			continue
		}
		// only when the server was closed by who got the answer
		closed := false
		for _, fc := range p.Facts() {
			if fc.Val && fc.Cond.contains(serve.err()) && fc.Cond.any(func(t *Term) bool { return strings.Contains(t.Aux, "http.ErrServerClosed") }) {
				closed = true
			}
		}
		r.need(closed, "captured", c+": waited", serve.Pos, "a failure to wait for the code is not reported")
		code, state := p.Results[0].Args[0], p.Results[1].Args[0]
		var errCell *Term
		for _, fc := range p.Facts() {
			fc.Cond.any(func(t *Term) bool {
				if isLoad(t) && isErrT(t.Typ) && t.Args[0].Op == OAlloc && p.isNil(t) {
					errCell = t.Args[0]
				}
				return false
			})
		}
		h := unIface(fieldAt(p, serve.Mem, serve.Args[0], "Handler"))
		if !r.need(errCell != nil && h.Op == OClosure && h.Fn != nil, "captured", c+": handler", serve.Pos, "it is not known what is done with the answer, or whether it was a refusal: %v", h) {
			continue
		}
		var okCells bool
		okCells = p.isNil(p.LoadAt(serve.Mem, errCell, deref(errCell.Typ)))
		r.need(okCells, "captured", c+": start", serve.Pos, "it is not clear at first that nothing went wrong")
		he := AnalyseFrom(h.Fn, nil, h.Args, serve.Mem, nil, Config{})
		r.took(he, h.Fn)
		checkHandler(r, h.Fn, he, serve.Mem, code, state, errCell, serve.Args[0])
	}
	r.need(good > 0, "captured", c+": possible", f.Pos(), "a code is never got")
	r.atLeast("captured", 4)
	r.atLeast("answer", 2)
}

func checkHandler(r *Report, f *ssa.Function, e *Engine, start *Mem, code, state, errCell, server *Term) {
	c := shortFn(f)
	gets := 0
	for _, p := range e.Paths {
		if p.Kind != "return" {
			r.need(false, "answer", c, p.Pos, "answering a request can panic, or goes round in circles")
			continue
		}
		var cl *Event
		for _, x := range p.Events() {
			if x.Kind == "call" && (strings.HasSuffix(x.Name, "http.Server).Close") || strings.HasSuffix(x.Name, "http.Server).Shutdown")) {
				cl = x
			}
		}
		// what is kept by the time the wait ends
		m := p.Mem
		if cl != nil {
			m = cl.Mem
			for x := p.Mem; x != nil && x != cl.Mem; x = x.prev {
				r.need(x.kind != mWrite || x.addr != code && x.addr != state && x.addr != errCell, "answer", c+": late", cl.Pos, "the wait ends before the answer is kept")
			}
			r.need(cl.Args[0] == server, "answer", c+": server", cl.Pos, "it is not this wait that ends")
		}
		cv := p.LoadAt(m, code, types.Typ[types.String])
		sv := p.LoadAt(m, state, types.Typ[types.String])
		ev := p.LoadAt(m, errCell, deref(errCell.Typ))
		if p.notNil(ev) {
			r.need(cl != nil, "answer", c+": refused", p.Pos, "after a bad answer the wait does not end")
			continue
		}
		first := func(t *Term, key string) *Term {
			// vals[key][0], the only one
			if !isLoad(t) || t.Args[0].Op != OIdx || t.Args[0].Args[1] != cInt(0) {
				return nil
			}
			lst := t.Args[0].Args[0]
			if !isLoad(lst) || lst.Args[0].Op != OMapEnt || lst.Args[0].Args[1] != cStr(key) || !p.Holds(cmp0("=", nSub(mkLen(lst), cInt(1)))) {
				return nil
			}
			return lst.Args[0].Args[0]
		}
		q, q2 := first(cv, "code"), first(sv, "state")
		if cl == nil {
			r.need(cv == p.LoadAt(start, code, types.Typ[types.String]) && sv == p.LoadAt(start, state, types.Typ[types.String]), "answer", c+": waiting", p.Pos, "an answer is kept but the wait does not end")
			continue
		}
		gets++
		r.need(q != nil && q == q2 && strings.HasSuffix(q.Aux, "url.URL).Query"), "answer", c, p.Pos, "what is kept is not the one code and the one state of the answer: %v, %v", cv, sv)
	}
	r.need(gets > 0, "answer", c+": possible", f.Pos(), "no answer is ever accepted")
}
