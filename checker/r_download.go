package main

// What downloads keep: state files, responses, records, tokens.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func suffix(ev *Event, ss ...string) bool {
	for _, s := range ss {
		if strings.HasSuffix(ev.Name, s) {
			return true
		}
	}
	return false
}

// changesFiles: the function (by name) changes files, or can
func changesFiles(name string) bool {
	switch {
	case strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "io/ioutil.") || strings.HasPrefix(name, "syscall."):
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Create", "OpenFile", "WriteFile", "Rename", "Remove", "RemoveAll", "Truncate", "Link", "Symlink", "CreateTemp", "TempFile",
			"Chmod", "Chown", "Lchown", "Chtimes", "MkdirTemp", "TempDir", "Mkdir", "MkdirAll", "Unlink", "Ftruncate", "Open_", "NewFile", "CopyFS", "OpenRoot":
			return true
		}
	case strings.HasPrefix(name, "(*os.File).Truncate"), strings.HasPrefix(name, "(*os.File).Chmod"), strings.HasPrefix(name, "(*os.File).Chown"),
		strings.HasPrefix(name, "os/exec."), strings.HasPrefix(name, "(*os.Root)."):
		return true
	}
	return false
}

// besides: the name is that of another file in the directory of file
func besides(t, file *Term) bool {
	consts, vals := pieces(t)
	if len(vals) == 1 && vals[0] == file && consts[0] == "" {
		return consts[1] != "" && !strings.ContainsAny(consts[1], "/\\")
	}
	return false
}

func isCallOf(t *Term, name string, args ...*Term) bool {
	if t.Op != OCall || !(t.Aux == name || strings.HasSuffix(t.Aux, "/"+name)) || len(t.Args) < len(args) {
		return false
	}
	for i, a := range args {
		if t.Args[i] != a {
			return false
		}
	}
	return true
}

// isGz: does the path know the name of the file to end in .gz? 1 yes, -1 no, 0 it doesn't know
func isGz(p *Path, file *Term) int {
	yes, no := false, false
	ext := func(x *Term) bool {
		return (isCallOf(x, "filepath.Ext", file) || isCallOf(x, "path.Ext", file))
	}
	for _, f := range p.Facts() {
		f.Cond.any(func(x *Term) bool {
			switch {
			case ext(x):
				if p.Holds(cmp0("=", nSub(x, cStr(".gz")))) {
					yes = true
				}
				if p.Not(cmp0("=", nSub(x, cStr(".gz")))) {
					no = true
				}
			case isCallOf(x, "strings.HasSuffix", file, cStr(".gz")):
				if p.Holds(x) {
					yes = true
				}
				if p.Not(x) {
					no = true
				}
			}
			return false
		})
	}
	switch {
	case yes && !no:
		return 1
	case no && !yes:
		return -1
	}
	return 0
}

func checkState(r *Report) {
	save := r.fn("cmd/utils.SaveToFile")
	load := r.fn("cmd/utils.LoadFromFile")
	if save == nil || load == nil || !r.need(len(save.Params) == 2 && len(load.Params) == 2, "anchor", "cmd/utils", noPos, "the state is not saved and loaded by name and data") {
		return
	}
	checkSave(r, save)
	checkLoad(r, load)

	// nothing else touches files in what downloads
	for _, f := range allFuncs {
		if !inRepo(f) || relPkg(pkgOf(f)) != "cmd/download" || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		r.fns[fnKey(f)] = true
		bad := callsOf(f, func(n string, _ *ssa.Function) bool { return changesFiles(n) })
		at := f.Pos()
		if len(bad) > 0 {
			at = bad[0].Pos()
		}
		r.need(len(bad) == 0, "only-save", shortFn(f), at, "a download changes files other than by saving its state")
	}
	r.atLeast("only-save", 30)
}

// tempOf: the name of the new file
func tempOf(p *Path, made *Event, tmp *Term) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op == OCall && strings.HasSuffix(t.Aux, "os.File).Name") && t.Args[0] == tmp {
			return true
		}
		return strings.HasSuffix(made.Name, "os.OpenFile") && t == made.Args[0]
	}
}

func checkSave(r *Report, f *ssa.Function) {
	c := shortFn(f)
	file, data := param(f, 0), param(f, 1)
	e := r.runFn(f, nil, Config{})
	r.need(len(e.panics()) == 0, "no-panic", c, f.Pos(), "saving can end in a panic")
	good := 0
	gz := map[int]bool{}
	for _, p := range e.returns() {
		var made *Event
		var tmp, content *Term
		var enc, zw *Term
		var encOk bool
		step := map[string]*Event{} // written, flushed, synced, closed, renamed
		ok := func(n string) bool { return step[n] != nil && p.isNil(step[n].err()) }
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Defer {
				continue
			}
			switch {
			case suffix(ev, "json.Marshal", "json.MarshalIndent"):
				if unIface(ev.Args[0]) == unIface(data) && p.isNil(ev.err()) {
					content = ev.part(0)
				}
			case suffix(ev, "os.MkdirAll"):
				r.need(isCallOf(ev.Args[0], "filepath.Dir", file), "save-effect", c+": MkdirAll", ev.Pos, "another directory is made")
			case suffix(ev, "os.CreateTemp", "ioutil.TempFile"):
				r.need(made == nil && isCallOf(ev.Args[0], "filepath.Dir", file), "save-beside", c, ev.Pos, "the new file is not in the directory of the old one: it cannot take its place in one step")
				made, tmp = ev, ev.part(0)
			case suffix(ev, "os.OpenFile"):
				fl, okF := ev.Args[1].intVal()
				r.need(made == nil && besides(ev.Args[0], file) && okF && fl&0x40 != 0 && fl&(0x80|0x200) != 0, "save-beside", c, ev.Pos, "what is written to is not a new file beside the old one")
				md, okM := ev.Args[2].intVal()
				r.need(okM && md&077 == 0, "save-effect", c+": OpenFile", ev.Pos, "the state may be read by others")
				made, tmp = ev, ev.part(0)
			case suffix(ev, "gzip.NewWriter", "gzip.NewWriterLevel"):
				zw = ev.part(0)
				r.need(tmp != nil && unIface(ev.Args[0]) == tmp, "save-content", c+": compressed", ev.Pos, "what is compressed does not go to the new file")
			case suffix(ev, "json.NewEncoder"):
				w := unIface(ev.Args[0])
				enc = ev.part(0)
				encOk = w == tmp && zw == nil || w == zw && zw != nil
			case suffix(ev, "json.Encoder).Encode"):
				r.need(enc != nil && ev.Args[0] == enc && encOk && unIface(ev.Args[1]) == unIface(data) && step["written"] == nil, "save-content", c, ev.Pos, "it is not the data that is written, or not to the new file")
				step["written"] = ev
			case suffix(ev, "os.File).Write", "gzip.Writer).Write", "os.File).WriteString"):
				to := tmp
				if zw != nil {
					to = zw
				}
				r.need(to != nil && ev.Args[0] == to && content != nil && ev.Args[1] == content && step["written"] == nil, "save-content", c, ev.Pos, "it is not the data, the whole of it and once, that is written to the new file")
				step["written"] = ev
			case suffix(ev, "gzip.Writer).Close"):
				r.need(zw != nil && ev.Args[0] == zw && (ok("written") || p.notNil(step["written"].err())), "save-order", c+": compressed", ev.Pos, "the compressed text is ended before the data is written")
				step["flushed"] = ev
			case suffix(ev, "os.File).Sync"):
				if tmp != nil && ev.Args[0] == tmp && ok("written") && (zw == nil || ok("flushed")) {
					step["synced"] = ev
				}
			case suffix(ev, "os.File).Close"):
				if tmp != nil && ev.Args[0] == tmp {
					step["closed"] = ev
				}
			case suffix(ev, "os.Rename"):
				r.need(made != nil && p.isNil(made.err()) && tempOf(p, made, tmp)(ev.Args[0]) && ev.Args[1] == file, "save-place", c, ev.Pos, "it is not the new file that takes the place of the old one")
				r.need(ok("written") && (zw == nil || ok("flushed")), "save-order", c+": written", ev.Pos, "the new file takes the place of the old one although it may not have all of the data")
				r.need(ok("synced"), "save-order", c+": synced", ev.Pos, "the new file takes the place of the old one before what it has is safe on disk")
				r.need(ok("closed"), "save-order", c+": closed", ev.Pos, "the new file takes the place of the old one before it is known to be closed well")
				r.need(step["renamed"] == nil, "save-order", c+": once", ev.Pos, "a file takes the place of the old one more than once")
				step["renamed"] = ev
			case suffix(ev, "os.Remove"):
				r.need(made != nil && tempOf(p, made, tmp)(ev.Args[0]), "save-effect", c+": Remove", ev.Pos, "another file is removed")
			case suffix(ev, "os.File).Chmod"):
				m, isN := ev.Args[1].intVal()
				r.need(tmp != nil && ev.Args[0] == tmp && isN && m&077 == 0, "save-effect", c+": Chmod", ev.Pos, "the state may be read by others")
			default:
				r.need(!changesFiles(ev.Name), "save-effect", c+": "+shortName(ev.Name), ev.Pos, "files are changed by something other than the new file taking the place of the old one")
			}
		}
		for _, ev := range p.Events() {
			if ev.Kind == "loop" || ev.Kind == "go" {
				r.need(false, "save-content", c+": loop", ev.Pos, "the data is not written in one go")
			}
		}
		if ok("renamed") {
			r.need(true, "save-order", c, p.Pos, "")
		}
		if retErr(p) == 1 {
			continue
		}
		good++
		r.need(ok("renamed"), "save-success", c, p.Pos, "saving succeeds although the new file has not taken the place of the old one")
		r.need(ok("written"), "save-success", c+": written", p.Pos, "saving succeeds although the data may not have been written")
		g := isGz(p, file)
		gz[g] = true
		r.need(g == 1 && zw != nil || g == -1 && zw == nil, "save-compressed", c, p.Pos, "the state is not compressed just when its name ends in .gz")
	}
	r.need(good > 0 && gz[1] && gz[-1], "save-success", c+": possible", f.Pos(), "saving does not succeed for names with and without .gz")
	r.atLeast("save-order", 8)
	r.atLeast("save-content", 2)
}

func checkLoad(r *Report, f *ssa.Function) {
	c := shortFn(f)
	file, data := param(f, 0), param(f, 1)
	e := r.runFn(f, nil, Config{})
	r.need(len(e.panics()) == 0, "no-panic", c, f.Pos(), "loading can end in a panic")
	absent, read := 0, map[int]bool{}
	for _, p := range e.returns() {
		var opened, got *Event
		var zr *Event
		var src *Term
		var bytes *Term
		missing := false
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Defer {
				continue
			}
			switch {
			case suffix(ev, "os.MkdirAll"):
				r.need(isCallOf(ev.Args[0], "filepath.Dir", file), "load-effect", c+": MkdirAll", ev.Pos, "another directory is made")
			case suffix(ev, "os.Open"):
				r.need(opened == nil && ev.Args[0] == file, "load-source", c, ev.Pos, "it is not the given file that is opened")
				opened, src = ev, ev.part(0)
			case suffix(ev, "gzip.NewReader"):
				r.need(src != nil && unIface(ev.Args[0]) == src, "load-source", c+": compressed", ev.Pos, "it is not the given file that is read")
				zr = ev
				src = ev.part(0)
			case suffix(ev, "ioutil.ReadAll", "io.ReadAll"):
				if src != nil && unIface(ev.Args[0]) == src && p.isNil(ev.err()) && (zr == nil || p.isNil(zr.err())) {
					bytes = ev.part(0)
				}
			case suffix(ev, "ioutil.ReadFile", "os.ReadFile"):
				r.need(opened == nil && ev.Args[0] == file, "load-source", c, ev.Pos, "it is not the given file that is read")
				opened = ev
				if p.isNil(ev.err()) {
					bytes = ev.part(0)
				}
			case suffix(ev, "json.Unmarshal"):
				r.need(bytes != nil && ev.Args[0] == bytes && unIface(ev.Args[1]) == unIface(data), "load-content", c, ev.Pos, "it is not the whole of the file that is read into the data")
				got = ev
			case suffix(ev, "os.IsNotExist"):
				if opened != nil && ev.Args[0] == opened.err() && p.Holds(ev.Res) {
					missing = true
				}
			default:
				r.need(!changesFiles(ev.Name), "load-effect", c+": "+shortName(ev.Name), ev.Pos, "loading changes files")
			}
		}
		for _, fc := range p.Facts() {
			if x := fc.Cond; fc.Val && opened != nil && x.Op == OCall && (x.Aux == "errors.Is" && strings.Contains(x.Args[1].String(), "ErrNotExist") || x.Aux == "os.IsNotExist") && x.Args[0] == opened.err() {
				missing = true
			}
		}
		if retErr(p) == 1 {
			continue
		}
		if got == nil {
			absent++
			r.need(missing, "load-absent", c, p.Pos, "loading succeeds without data although the file may be there")
			continue
		}
		g := isGz(p, file)
		read[g] = true
		r.need(p.isNil(got.err()), "load-error", c, got.Pos, "loading succeeds although the file may not be JSON, or not all of it")
		r.need(g == 1 && zr != nil || g == -1 && zr == nil, "load-compressed", c, p.Pos, "the state is not uncompressed just when its name ends in .gz")
	}
	r.need(absent > 0 && read[1] && read[-1], "load-success", c, f.Pos(), "loading does not succeed for a file that is not there, one with and one without .gz")
	for _, p := range e.Paths {
		for _, ev := range p.Events() {
			if ev.Kind == "loop" {
				r.need(false, "load-content", c+": loop", ev.Pos, "the file is not read in one go")
			}
		}
	}
}

// wraps: the error is target, or is made with %w of it
func wraps(err, target *Term) bool {
	if err == nil {
		return false
	}
	if err == target {
		return true
	}
	if err.Op == OIface && len(err.Args) == 1 {
		return wraps(err.Args[0], target)
	}
	if err.name() != "fmt.Errorf" || err.Op != OFresh || len(err.Args) == 0 {
		return false
	}
	_, vals := pieces(err.Args[0])
	for _, v := range vals {
		if v.Op == OCall && strings.HasPrefix(v.Aux, "fmt:%w") && len(v.Args) == 1 && wraps(v.Args[0], target) {
			return true
		}
	}
	return false
}

// wrapsErrVar: the error is, or wraps, an error kept in a variable of the package
func wrapsErrVar(err *Term, pkg string) bool {
	found := false
	err.any(func(x *Term) bool {
		if (x.Op == OGlobal && strings.HasPrefix(x.Aux, "val:") && strings.Contains(x.Aux, "/"+pkg+".") || isLoad(x) && len(x.Args) > 0 && x.Args[0].Op == OGlobal && strings.Contains(x.Args[0].Aux, "/"+pkg+".")) && wraps(err, x) {
			found = true
		}
		return found
	})
	return found
}

func isRequest(name string) bool {
	for _, s := range []string{"(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Do", "(*net/http.Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head"} {
		if name == s {
			return true
		}
	}
	return strings.HasSuffix(name, "http.RoundTripper).RoundTrip") || strings.HasSuffix(name, "http.Transport).RoundTrip")
}

// requesters are the functions of the downloads that make requests
func requesters() (fs []*ssa.Function) {
	for _, f := range allFuncs {
		if inRepo(f) && relPkg(pkgOf(f)) == "cmd/download" && len(f.Blocks) > 0 && f.Synthetic == "" &&
			len(callsOf(f, func(n string, _ *ssa.Function) bool { return isRequest(n) })) > 0 {
			fs = append(fs, f)
		}
	}
	return
}

// asks: the function that carries out requests, given the client, the address and what to decode into
func isAsking(f *ssa.Function) bool {
	if f == nil || !inRepo(f) || relPkg(pkgOf(f)) != "cmd/download" || len(f.Blocks) == 0 || f.Synthetic != "" || !lastErr(f) || f.Parent() != nil {
		return false
	}
	n := f.Signature.Params().Len()
	if f.Signature.Recv() != nil || n < 3 || f.Signature.Results().Len() != 1 {
		return false
	}
	return f.Signature.Params().At(0).Type().String() == "*net/http.Client" && isStringT(f.Signature.Params().At(1).Type()) && types.IsInterface(f.Signature.Params().At(n-1).Type())
}

func checkResponses(r *Report) {
	var asking []*ssa.Function
	for _, f := range allFuncs {
		if isAsking(f) && len(callersOf(f)) > 0 {
			reaches := false
			for g := range reach(f) {
				for _, q := range requesters() {
					if g == q || f == q {
						reaches = true
					}
				}
			}
			if reaches {
				asking = append(asking, f)
			}
		}
	}
	r.need(len(asking) >= 2, "anchor", "cmd/download", noPos, "no functions found that ask and that send")
	covered := map[*ssa.Function]bool{}
	for _, f := range asking {
		covered[f] = true
		for g := range reach(f) {
			covered[g] = true
		}
	}
	for _, f := range requesters() {
		r.need(covered[f], "only-request", shortFn(f), f.Pos(), "a request is made where its response is not checked")
	}
	// every use of them that is exchanged over HTTP otherwise
	for _, f := range asking {
		isInner := false
		for _, g := range asking {
			if g != f && reach(g)[f] {
				isInner = true
			}
		}
		if !isInner {
			checkAsk(r, f)
		}
	}
	r.atLeast("response-ok", 2)
	r.atLeast("response-closed", 6)
}

func checkAsk(r *Report, f *ssa.Function) {
	c := shortFn(f)
	client, url, data := param(f, 0), param(f, 1), param(f, len(f.Params)-1)
	e := r.runFn(f, nil, Config{})
	r.need(len(e.panics()) == 0, "no-panic", c, f.Pos(), "a request can end in a panic")
	good, refused := 0, 0
	posts := false
	for _, p := range e.returns() {
		var req, read, dec, decoded *Event
		var resp, body *Term
		var src *Term // what the decoder reads
		strict, closed := false, false
		for _, ev := range p.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case isRequest(ev.Name):
				r.need(req == nil && len(ev.Args) >= 2 && ev.Args[0] == client && ev.Args[1] == url, "request", c, ev.Pos, "it is not the address asked for that is requested, once, by the given client")
				if strings.HasSuffix(ev.Name, "PostForm") {
					posts = true
					r.need(len(f.Params) == 4 && ev.Args[2] == param(f, 2), "request", c+": form", ev.Pos, "it is not the given values that are sent")
				}
				req, resp = ev, ev.part(0)
			case suffix(ev, "ReadCloser).Close", "io.Closer).Close"):
				if resp != nil && isBody(ev.Args[0], resp) {
					closed = true
				}
			case suffix(ev, "ioutil.ReadAll", "io.ReadAll"):
				if resp != nil && isBody(unIface(ev.Args[0]), resp) {
					read = ev
					body = ev.part(0)
				}
			case suffix(ev, "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader"):
				if body != nil && (ev.Args[0] == body || ev.Args[0].Op == OConv && ev.Args[0].Args[0] == body) {
					src = ev.part(0)
				}
			case suffix(ev, "json.NewDecoder"):
				if w := unIface(ev.Args[0]); src != nil && w == src || resp != nil && isBody(w, resp) {
					dec = ev
				} else {
					r.need(false, "response-whole", c, ev.Pos, "it is not the body of the response that is decoded")
				}
			case suffix(ev, "json.Decoder).DisallowUnknownFields"):
				if dec != nil && ev.Args[0] == dec.part(0) && decoded == nil {
					strict = true
				}
			case suffix(ev, "json.Decoder).Decode"):
				r.need(dec != nil && ev.Args[0] == dec.part(0) && decoded == nil && unIface(ev.Args[1]) == unIface(data), "response-data", c, ev.Pos, "what is decoded is not what was asked for")
				decoded = ev
			case suffix(ev, "json.Unmarshal"):
				r.need(false, "response-strict", c, ev.Pos, "what a response has and the program does not know is dropped")
			}
		}
		if req == nil {
			r.need(retErr(p) == 1, "response-ok", c, p.Pos, "it succeeds without a request")
			continue
		}
		is := func(n int64) bool { return statusFact(p, resp, n, true) }
		isNot := func(n int64) bool { return statusFact(p, resp, n, false) }
		if !p.notNil(req.err()) {
			r.need(closed, "response-closed", c, p.Pos, "the response is not closed")
		}
		last := p.Results[len(p.Results)-1]
		if retErr(p) == 1 {
			w := wrapsErrVar(last, "cmd/download")
			if is(403) {
				refused++
				r.need(w || read != nil && p.notNil(read.err()), "response-refused", c, p.Pos, "a response that says it is forbidden cannot be told from others")
			} else {
				r.need(!w, "response-refused", c+": others", p.Pos, "a failure is taken for a response that says it is forbidden")
			}
			// a good response is not refused
			allowed := is(200) || posts && is(201)
			r.need(!allowed || read != nil && p.notNil(read.err()) || decoded != nil && p.notNil(decoded.err()), "response-taken", c, p.Pos, "a good response is refused")
			continue
		}
		good++
		ok := p.isNil(req.err()) && (is(200) || posts && is(201))
		r.need(ok, "response-ok", c, p.Pos, "it succeeds although the request may have failed, or been answered with another status than success")
		r.need(isNot(403) || is(200) || is(201), "response-ok", c+": forbidden", p.Pos, "it succeeds although the response may say it is forbidden")
		r.need(read == nil || p.isNil(read.err()), "response-whole", c, p.Pos, "it succeeds although not all of the response may have been read")
		r.need(decoded != nil && p.isNil(decoded.err()), "response-data", c, p.Pos, "it succeeds although the response may not have been understood")
		r.need(strict, "response-strict", c, p.Pos, "what a response has and the program does not know is dropped")
	}
	r.need(good > 0 && refused > 0, "response-ok", c+": possible", f.Pos(), "it never succeeds, or never tells that it is forbidden")
}

// statusFact: the path knows the status of the response to be, or not to be, n
func statusFact(p *Path, resp *Term, n int64, is bool) bool {
	found := false
	for _, f := range p.Facts() {
		f.Cond.any(func(x *Term) bool {
			if isLoad(x) && len(x.Args) > 0 && x.Args[0].Op == OFld && strings.Contains(fieldName(x.Args[0]), "Response.StatusCode#") && x.Args[0].Args[0] == resp {
				c := cmp0("=", nSub(x, cInt(n)))
				if is && p.Holds(c) || !is && p.Not(c) {
					found = true
				}
			}
			return found
		})
	}
	return found
}

// isBody: the body of the response
func isBody(t, resp *Term) bool {
	return isLoad(t) && len(t.Args) > 0 && t.Args[0].Op == OFld && strings.Contains(fieldName(t.Args[0]), "Response.Body#") && t.Args[0].Args[0] == resp
}

// ---- what is kept of what was downloaded

func askConfig(names ...string) Config {
	m := map[*ssa.Function]bool{}
	for _, n := range names {
		if f := lookup(n); f != nil {
			m[f] = true
		}
	}
	return Config{Mode: func(f *ssa.Function) Mode {
		if m[f] || isAsking(f) {
			return MEvent
		}
		return MInline
	}}
}

func asksIn(evs []*Event) []*Event {
	return filterCalls(evs, func(ev *Event) bool { return isAsking(ev.Fn) })
}

// fieldAt follows fields, through pointers, from the object at base in memory m
func fieldAt(p *Path, m *Mem, base *Term, names ...string) *Term {
	for i, n := range names {
		for base.Typ != nil {
			pt, ok := base.Typ.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			if _, ok := pt.Elem().Underlying().(*types.Pointer); !ok {
				break
			}
			base = p.LoadAt(m, base, pt.Elem())
		}
		st := deref(base.Typ)
		k := fieldIdx(st, n)
		if k < 0 {
			return T.mk(OUndef, "?."+n, nil)
		}
		a := fldAddr(base, st, k)
		ft := st.Underlying().(*types.Struct).Field(k).Type()
		if _, isStruct := ft.Underlying().(*types.Struct); isStruct && i < len(names)-1 {
			base = a
			continue
		}
		base = p.LoadAt(m, a, ft)
	}
	return base
}

// eachOf: on p the whole of list has been gone over; do is asked about each iteration. It is not
// needed for a list known to be empty
func eachOf(r *Report, rule, c string, p *Path, list *Term, do func(b *Path, s *scan) bool, msg string) {
	if p.Holds(cmp0("=", mkLen(list))) {
		return
	}
	var sc *scan
	if list.Op != OUndef {
		sc = p.scanOf(list)
	}
	if !r.need(sc != nil && len(sc.l.Backs) > 0, rule, c, p.Pos, "not all of %s is gone over: %v", msg, list) {
		return
	}
	for _, b := range sc.l.Backs {
		r.need(do(b, sc), rule, c+": each", b.Pos, "not each of %s is kept as it should be", msg)
	}
}

// recordOf is the object an iteration over a list of them, or of pointers to them, is about
func recordOf(b *Path, s *scan) *Term {
	el := s.elem(b)
	if el != nil && el.Typ != nil {
		if _, ok := el.Typ.Underlying().(*types.Pointer); ok {
			return el
		}
	}
	return s.elemAddr()
}

// keptUnder: the iteration puts the record into the map under its id
func keptUnder(b *Path, s *scan, m func(b *Path, mem *Mem) *Term, id string) bool {
	rec := recordOf(b, s)
	key := fieldAt(b, s.l.IterMem, rec, id)
	// a request changes nothing but what it is given to fill in
	at := []*Mem{s.l.IterMem}
	for _, ev := range asksIn(b.Events()) {
		at = append(at, ev.Mem)
	}
	for _, x := range at {
		mm := m(b, x)
		if _, isM := typUnder(mm).(*types.Map); !isM {
			continue
		}
		ok := false
		for _, w := range b.writesSince(s.l.IterMem) {
			if w.addr.Op == OMapEnt && w.addr.Args[0] == mm {
				ok = w.addr.Args[1] == key && w.val == rec
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// the records and the field that identifies each
var recordIDs = map[string]string{"cmd/download.MonzoAccount": "ID", "cmd/download.Transaction": "ID", "cmd/download.StarlingAccount": "AccountUid",
	"cmd/download.FeedItem": "FeedItemUid", "cmd/download.NordigenTransaction": "Id"}

// stateOf is the data of the client of the entry
func stateOf(p *Path, m *Mem, client *Term) *Term { return fieldAt(p, m, client, "data") }

// mapMade: the map of that field was found or made earlier; no other is put there (losesNothing)
func mapMade(p *Path, m *Term) bool {
	name := lastField(m)
	for _, w := range p.writesSince(nil) {
		if w.addr.Op == OFld && isNew(w.val) && lastField(w.addr) == name {
			return true
		}
	}
	return p.anyFact(func(t *Term) bool { return isLoad(t) && t.Typ != nil && lastField(t) == name && p.notNil(t) })
}

// losesNothing: nothing that is kept is removed or replaced other than by a record with the same id
func losesNothing(r *Report, f *ssa.Function, e *Engine) {
	c := shortFn(f)
	seen := map[string]bool{}
	for _, p := range e.Paths {
		for _, w := range p.writesSince(nil) {
			if w.addr.Op == OMapEnt {
				m := w.addr.Args[0]
				r.need(isNew(m) || p.notNil(m) || mapMade(p, m), "kept-map", c+": "+lastField(m), p.Pos, "what is received may be put into a map that was never made: %v", m)
			}
			if isNew(rootObj(w.addr)) && w.addr.Op != OMapEnt && w.addr.Op != OMapHas {
				continue
			}
			k := w.addr.String() + "=" + w.val.String()
			if seen[k] {
				continue
			}
			switch w.addr.Op {
			case OMapHas:
				r.need(w.val.isTrue(), "keep", c+": "+lastField(w.addr.Args[0]), p.Pos, "something that is kept is removed")
				continue
			case OMapEnt:
				mt, et := mapOf(w.addr.Args[0])
				if mt == nil || et == nil {
					continue
				}
				if _, isM := et.Underlying().(*types.Map); isM {
					break
				}
				pt, isP := et.Underlying().(*types.Pointer)
				if !isP || namedOf(pt.Elem()) == nil || !inRepoType(pt.Elem()) {
					continue
				}
				for rt, id := range recordIDs {
					if isType(et, rt) {
						key := fieldAt(p, w.prev, w.val, id)
						r.need(key == w.addr.Args[1], "own-id", c+": "+rt, p.Pos, "a record is kept under something other than its identifier: %v, %v", w.addr.Args[1], key)
						seen[k] = true
					}
				}
				if seen[k] {
					continue
				}
				// what holds the records of an account is made only if there is none
				has := p.LoadAt(w.prev, T.mk(OMapHas, "", nil, w.addr.Args[0], w.addr.Args[1]), boolT())
				// the presence is written with the entry
				if w.prev != nil && w.prev.kind == mWrite && w.prev.addr.Op == OMapHas {
					has = p.LoadAt(w.prev.prev, T.mk(OMapHas, "", nil, w.addr.Args[0], w.addr.Args[1]), boolT())
				}
				was := p.LoadAt(w.prev, w.addr, et)
				r.need(isNew(w.val) && (p.Not(has) || p.isNil(was)) || w.val == was, "keep", c+": "+shortType(et), p.Pos, "what is kept of an account is replaced")
				continue
			}
			t := w.addr.Typ
			if t == nil {
				continue
			}
			el := deref(t)
			if w.addr.Op == OMapEnt {
				_, el = mapOf(w.addr.Args[0])
			}
			if _, isM := el.Underlying().(*types.Map); isM {
				was := p.LoadAt(w.prev, w.addr, el)
				if w.addr.Op == OMapEnt && w.prev != nil && w.prev.kind == mWrite && w.prev.addr.Op == OMapHas {
					was = p.LoadAt(w.prev.prev, w.addr, el)
				}
				r.need(w.val == was || isNew(w.val) && p.isNil(was), "keep", c+": "+lastField(w.addr), p.Pos, "what is kept is replaced although there is something")
			} else if n := lastField(w.addr); n == "data" || n == "file" || n == "client" {
				r.need(false, "keep", c+": "+n, p.Pos, "the state, or where it is kept, is another one from then on")
			}
		}
	}
}

func inRepoType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// lastField is the name of the field of a location, or of where the value was loaded from
func lastField(t *Term) string {
	for t != nil {
		if t.Op == OFld {
			n := fieldName(t)
			n = n[strings.LastIndexByte(n, '.')+1:]
			if i := strings.IndexByte(n, '#'); i >= 0 {
				n = n[:i]
			}
			return n
		}
		if len(t.Args) == 0 {
			break
		}
		t = t.Args[0]
	}
	return "?"
}

// addsTo are the values put into the map of values by name on the events
func addsTo(evs []*Event, m *Term) map[string]*Term {
	r := map[string]*Term{}
	for _, ev := range evs {
		if ev.Kind == "call" && (suffix(ev, "url.Values).Add") || suffix(ev, "url.Values).Set")) && len(ev.Args) == 3 && ev.Args[0] == m && ev.Args[1].isStrC() {
			if _, dup := r[ev.Args[1].strVal()]; dup && suffix(ev, "Add") {
				r[ev.Args[1].strVal()] = T.mk(OUndef, "twice", nil)
				continue
			}
			r[ev.Args[1].strVal()] = ev.Args[2]
		}
	}
	return r
}

// isDec: the text is the decimal of n
func isDec(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if t.Op == OCall && (strings.HasPrefix(t.Aux, "fmt:%d") || strings.HasPrefix(t.Aux, "fmt:%v")) && len(t.Args) == 1 {
		return t.Args[0].intVal()
	}
	if t.Op == OCall && (strings.HasPrefix(t.Aux, "strconv.Itoa") || strings.HasPrefix(t.Aux, "strconv.Format")) {
		return t.Args[0].intVal()
	}
	if t.isStrC() {
		var n int64
		for _, ch := range t.strVal() {
			if ch < '0' || ch > '9' {
				return 0, false
			}
			n = n*10 + int64(ch-'0')
		}
		return n, t.strVal() != ""
	}
	return 0, false
}

const rfc3339 = "2006-01-02T15:04:05Z07:00"

// timeBefore: the text is the RFC3339 form of a time; it gives the time and how much is added to it
func timeText(t *Term) (base *Term, add *Term, days *Term) {
	if t == nil || t.Op != OCall || t.Aux != "(time.Time).Format" || len(t.Args) != 2 || !t.Args[1].isStrC() || t.Args[1].strVal() != rfc3339 {
		return nil, nil, nil
	}
	x := t.Args[0]
	switch {
	case x.Op == OCall && x.Aux == "(time.Time).Add" && len(x.Args) == 2:
		return x.Args[0], x.Args[1], nil
	case x.Op == OCall && x.Aux == "(time.Time).AddDate" && len(x.Args) == 4 && x.Args[1] == cInt(0) && x.Args[2] == cInt(0):
		return x.Args[0], nil, x.Args[3]
	}
	return x, cInt(0), nil
}

// later: the path knows that a is later than b; earlier that it is not
func later(p *Path, a, b *Term) int {
	for _, q := range []struct {
		t   *Term
		not bool
	}{{T.mk(OCall, "(time.Time).After", boolT(), a, b), false}, {T.mk(OCall, "(time.Time).Before", boolT(), b, a), false}} {
		if p.Holds(q.t) {
			return 1
		}
		if p.Not(q.t) {
			return -1
		}
	}
	// the other way round: known not to be earlier, or to be earlier
	if p.Not(T.mk(OCall, "(time.Time).After", boolT(), b, a)) || p.Not(T.mk(OCall, "(time.Time).Before", boolT(), a, b)) {
		return 1
	}
	if p.Holds(T.mk(OCall, "(time.Time).After", boolT(), b, a)) || p.Holds(T.mk(OCall, "(time.Time).Before", boolT(), a, b)) {
		return -1
	}
	return 0
}

func checkSync(r *Report) {
	checkMonzo(r)
	checkStarling(r)
	checkNordigen(r)
	checkClients(r)
	r.atLeast("own-id", 5)
	r.atLeast("keep", 8)
	r.atLeast("kept-all", 10)
	r.atLeast("saved", 3)
}

// saved: on success the state is saved, as it then is, where it was loaded from
func saved(r *Report, f *ssa.Function, e *Engine) {
	c := shortFn(f)
	cl := param(f, 0)
	n := 0
	for _, p := range e.returns() {
		sv := p.calls(func(ev *Event) bool { return ev.is("cmd/utils.SaveToFile") })
		if retErr(p) == 1 {
			continue
		}
		n++
		if !r.need(len(sv) == 1, "saved", c, p.Pos, "it succeeds although the state was not saved") {
			continue
		}
		ev := sv[0]
		d := unIface(ev.Args[1])
		if d.Typ != nil {
			if pt, ok := d.Typ.Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Pointer); ok {
					d = p.LoadAt(ev.Mem, d, pt.Elem())
				}
			}
		}
		r.need(ev.Args[0] == fieldAt(p, ev.Mem, cl, "file") && d == stateOf(p, ev.Mem, cl), "saved", c+": what", ev.Pos, "it is not the state that is saved, or not where it was loaded from: %v", ev.Args)
		evs := p.Events()
		for i := len(evs) - 1; i >= 0 && evs[i] != ev; i-- {
			r.need(!(evs[i].Kind == "loop" || evs[i].Kind == "call" && isAsking(evs[i].Fn)), "saved", c+": last", evs[i].Pos, "something is downloaded after the state was saved")
		}
		for _, w := range p.writesSince(justAfter(p, ev)) {
			r.need(isNew(rootObj(w.addr)), "saved", c+": last", p.Pos, "the state is changed after it was saved")
		}
	}
	r.need(n > 0, "saved", c+": possible", f.Pos(), "it never succeeds")
	// within a loop it is saved half done
	for _, p := range e.backs() {
		r.need(len(filterCalls(p.in(p.Loop), func(ev *Event) bool { return ev.is("cmd/utils.SaveToFile") })) == 0, "saved", c+": once", p.Pos, "the state is saved although not all of it may have been downloaded")
	}
}

func urlIs(p *Path, ev *Event, pat ...interface{}) bool { return lineIs(p, ev.Args[1], pat...) }

func askFor(evs []*Event, p *Path, pat ...interface{}) *Event {
	for _, ev := range asksIn(evs) {
		if urlIs(p, ev, pat...) {
			return ev
		}
	}
	return nil
}

func same(t *Term) role { return func(p *Path, x *Term) bool { return x == t } }

func checkMonzo(r *Report) {
	pages := r.fn("cmd/download.MonzoClient.GetAllTransactions")
	sync := r.fn("cmd/download.MonzoClient.Sync")
	if pages == nil || sync == nil || len(pages.Params) != 2 {
		r.need(false, "anchor", "cmd/download.MonzoClient", noPos, "no functions found that download the transactions of an account and of all")
		return
	}
	e := r.runFn(pages, nil, askConfig())
	c := shortFn(pages)
	cl, acct := param(pages, 0), param(pages, 1)
	losesNothing(r, pages, e)
	trans := func(b *Path, m *Mem) *Term { return fieldAt(b, m, stateOf(b, m, cl), "Transactions") }
	nl := 0
	for _, p := range e.Paths {
		if asks := asksIn(p.Events()); p.Kind == "return" && retErr(p) == 1 && len(asks) == 1 && p.notNil(asks[0].err()) {
			r.need(givesUp(p, asks[0]), "page-since", c+": all refused", asks[0].Pos, "it gives up although only everything at once was refused")
		}
		if p.Kind == "panic" || retErr(p) == 1 {
			continue
		}
		var outer *Loop
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && outer == nil {
				outer = ev.Loop
			}
		}
		if !r.need(outer != nil, "paging", c, p.Pos, "only one page is asked for") {
			continue
		}
		if p.Kind == "back" && p.Loop.Header != outer.Header {
			continue
		}
		evs := p.in(outer)
		asks := asksIn(evs)
		if !r.need(len(asks) == 1 || len(asks) == 2, "paging", c, p.Pos, "no page is asked for, or more than one") {
			continue
		}
		var since *Term
		limit := int64(-1)
		for i, ev := range asks {
			u := ev.Args[1]
			var q *Term
			ok := lineIs(p, u, `https://api\.monzo\.com/transactions\?`, role(func(_ *Path, x *Term) bool {
				q = x
				return x.Op == OCall && strings.HasSuffix(x.Aux, "url.Values).Encode")
			}), ``)
			if !r.need(ok, "page-asked", c, ev.Pos, "it is not for transactions that is asked: %v", u) {
				continue
			}
			vals := addsTo(evs, q.Args[0])
			n, okN := isDec(vals["limit"])
			r.need(okN && n > 0 && (limit < 0 || n == limit), "page-asked", c+": limit", ev.Pos, "a page has no size")
			limit = n
			r.need(vals["account_id"] == acct, "page-asked", c+": account", ev.Pos, "it is not for the transactions of the account that is asked")
			s := vals["since"]
			isVar := false
			for _, v := range outer.Vars {
				if v == s {
					isVar = true
				}
			}
			if i == 0 {
				since = s
				if r.need(isVar, "page-since", c+": first", ev.Pos, "the pages are not asked for one after the other: since %v", s) {
					for l := range instancesOf(e, outer.Header) {
						r.need(l.Entry[s] == nil || l.Entry[s] == cStr(""), "page-since", c+": all", ev.Pos, "the first page is not from the start: since %v", l.Entry[s])
					}
				}
				continue
			}
			// the second is for what the bank still gives
			er := asks[0].err()
			refused := p.notNil(er) && knowsRefused(p, er)
			r.need(refused && p.Holds(cmp0("=", nSub(since, cStr("")))) || refused && p.Holds(cmp0("=", mkLen(since))), "page-since", c+": refused", ev.Pos, "less than everything is asked for although the bank did not refuse that")
			base, add, days := timeText(s)
			long := false
			if add != nil {
				if n, ok := add.intVal(); ok && n <= -89*24*3600*1e9 {
					long = true
				}
			}
			if days != nil {
				if n, ok := days.intVal(); ok && n <= -89 {
					long = true
				}
			}
			r.need(base != nil && base.name() == "time.Now" && long, "page-since", c+": recent", ev.Pos, "less than the last 89 days are asked for: %v", s)
		}
		last := asks[len(asks)-1]
		r.need(p.isNil(last.err()), "page-error", c, last.Pos, "it goes on although the page was not received")
		if len(asks) == 2 {
			r.need(p.notNil(asks[0].err()), "page-error", c+": first", last.Pos, "a page that was received is dropped")
		}
		list := fieldAt(p, justAfter(p, last), target(last), "Trans")
		eachOf(r, "kept-all", c, p, list, func(b *Path, s *scan) bool { return keptUnder(b, s, trans, "ID") }, "the transactions received")
		r.need(true, "kept-all", c, p.Pos, "")
		if p.Kind == "return" {
			short := p.Holds(cmp0("=", mkLen(list))) || p.Holds(cmp0("<", nSub(mkLen(list), cInt(limit))))
			r.need(short, "paging", c+": end", p.Pos, "no more pages are asked for although there may be more")
			nl++
			continue
		}
		// the next page: from before the latest of this one
		nx := p.Next[since]
		base, add, _ := timeText(nx)
		back := false
		if add != nil {
			if n, ok := add.intVal(); ok && n <= 0 {
				back = true
			}
		}
		if !r.need(base != nil && back, "page-since", c+": next", p.Pos, "the next page is not from before the latest transaction of this one: %v", nx) {
			continue
		}
		r.need(latestOf(p, base, list), "page-since", c+": latest", p.Pos, "the next page is from something other than the time of the latest transaction of this one: %v", base)
	}
	r.need(nl > 0, "paging", c+": possible", pages.Pos(), "it never succeeds")

	// the whole
	e = r.runFn(sync, nil, askConfig("cmd/download.MonzoClient.GetAllTransactions", "cmd/utils.SaveToFile"))
	c = shortFn(sync)
	cl = param(sync, 0)
	losesNothing(r, sync, e)
	saved(r, sync, e)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		ask := askFor(p.Events(), p, `https://api\.monzo\.com/accounts`)
		if !r.need(ask != nil && p.isNil(ask.err()), "accounts", c, p.Pos, "it succeeds without having received the accounts") {
			continue
		}
		list := fieldAt(p, justAfter(p, ask), target(ask), "Accounts")
		accts := func(b *Path, m *Mem) *Term { return fieldAt(b, m, stateOf(b, m, cl), "Accounts") }
		eachOf(r, "kept-all", c+": accounts", p, list, func(b *Path, s *scan) bool { return keptUnder(b, s, accts, "ID") }, "the accounts received")
		eachAccount(r, p, c, ask, accts, func(b *Path, s *scan, id *Term) bool {
			for _, ev := range filterCalls(b.in(s.l), func(ev *Event) bool { return ev.Fn == pages }) {
				if b.isNil(ev.err()) && ev.Args[0] == cl && (ev.Args[1] == fieldAt(b, s.l.IterMem, s.elem(b), "ID") || ev.Args[1] == id) {
					return true
				}
			}
			return false
		})
	}
}

// givesUp: the path knows the error not to be a refusal, or that it was not everything that was
// asked for
func givesUp(p *Path, ask *Event) bool {
	for _, f := range p.Facts() {
		if !f.Val && f.Cond.Op == OCall && strings.HasSuffix(f.Cond.Aux, "errors.Is") && f.Cond.Args[0] == ask.err() {
			return true
		}
	}
	for _, ev := range p.Events() {
		if ev.Kind != "loop" {
			continue
		}
		for _, v := range ev.Loop.Vars {
			if v.Typ != nil && isStringT(v.Typ) && (p.Not(cmp0("=", nSub(v, cStr("")))) || p.Not(cmp0("=", mkLen(v)))) {
				return true
			}
		}
	}
	return false
}

// knowsRefused: the path knows the error to be the one of a refusal
func knowsRefused(p *Path, er *Term) bool {
	for _, f := range p.Facts() {
		if f.Val && f.Cond.Op == OCall && strings.HasSuffix(f.Cond.Aux, "errors.Is") && f.Cond.Args[0] == er {
			return true
		}
	}
	return false
}

// instancesOf are the instances of a loop
func instancesOf(e *Engine, h *ssa.BasicBlock) map[*Loop]bool {
	m := map[*Loop]bool{}
	for _, p := range e.Paths {
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && ev.Loop.Header == h {
				m[ev.Loop] = true
			}
		}
	}
	return m
}

func target(ev *Event) *Term { return unIface(ev.Args[len(ev.Args)-1]) }

// eachAccount: after they were received, all accounts that are kept are gone over
func eachAccount(r *Report, p *Path, c string, after *Event, accts func(*Path, *Mem) *Term, do func(b *Path, s *scan, id *Term) bool) {
	found := false
	past := false
	for _, ev := range p.Events() {
		if ev == after {
			past = true
		}
		if ev.Kind != "loop" || !past {
			continue
		}
		l := ev.Loop
		m := accts(p, l.EntryMem)
		if _, isM := typUnder(m).(*types.Map); !isM {
			continue
		}
		k, ok := p.mapScan(l, m)
		if !ok {
			continue
		}
		found = true
		s := &scan{l, m, nil, k}
		for _, b := range l.Backs {
			r.need(do(b, s, k), "accounts", c+": each", b.Pos, "not everything of an account is downloaded")
		}
	}
	r.need(found, "accounts", c+": all", p.Pos, "not all accounts are gone over")
}

// latestOf: t is the latest of the times of the transactions in the list
func latestOf(p *Path, t, list *Term) bool {
	s := p.scanOf(list)
	if s == nil {
		return false
	}
	isVar := false
	for _, v := range s.l.Vars {
		if v == t {
			isVar = true
		}
	}
	if !isVar {
		return false
	}
	for _, b := range s.l.Backs {
		rec := recordOf(b, s)
		cr := fieldAt(b, s.l.IterMem, rec, "Created")
		this := T.mk(OUndef, "none", nil)
		for _, f := range b.Facts() {
			f.Cond.any(func(x *Term) bool {
				if x.Op == OCall && x.Aux == "time.Parse.0" && x.Args[1] == cr {
					this = x
				}
				return false
			})
		}
		nx := b.Next[t]
		if !(nx == this && later(b, this, t) == 1 || nx == t && later(b, this, t) == -1) {
			return false
		}
	}
	return len(s.l.Backs) > 0
}

func checkStarling(r *Report) {
	feed := r.fn("cmd/download.StarlingClient.syncFeed")
	sync := r.fn("cmd/download.StarlingClient.Sync")
	if feed == nil || sync == nil || len(feed.Params) != 4 {
		r.need(false, "anchor", "cmd/download.StarlingClient", noPos, "no functions found that download the items of a category and of all")
		return
	}
	e := r.runFn(feed, nil, askConfig())
	c := shortFn(feed)
	cl, acct, cat := param(feed, 0), param(feed, 1), param(feed, 3)
	losesNothing(r, feed, e)
	items := func(b *Path, m *Mem) *Term {
		all := fieldAt(b, m, acct, "FeedItems")
		mt, et := mapOf(all)
		if mt == nil {
			return T.mk(OUndef, "items", nil)
		}
		return b.LoadAt(m, mapEnt(all, cat, mt), et)
	}
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		n++
		asks := asksIn(p.Events())
		if !r.need(len(asks) == 1 && p.isNil(asks[0].err()), "feed-asked", c, p.Pos, "it succeeds without having received the items, or asks more than once") {
			continue
		}
		ask := asks[0]
		var since *Term
		created := fieldAt(p, ask.Mem, acct, "Account", "CreatedAt")
		uid := fieldAt(p, ask.Mem, acct, "Account", "AccountUid")
		ok := urlIs(p, ask, `https://api\.starlingbank\.com/api/v2/feed/account/`, same(uid), `/category/`, same(cat), `\?changesSince=`, role(func(_ *Path, x *Term) bool { since = x; return true }), ``)
		if r.need(ok, "feed-asked", c+": address", ask.Pos, "it is not for the items of the category that is asked: %v", ask.Args[1]) {
			if since != created {
				base, add, days := timeText(since)
				back := false
				if days != nil {
					if n, ok := days.intVal(); ok && n <= -20 {
						back = true
					}
				}
				if add != nil {
					if n, ok := add.intVal(); ok && n <= -20*24*3600*1e9 {
						back = true
					}
				}
				r.need(back, "feed-since", c+": before", ask.Pos, "the items are asked for from later than 20 days before those already there: %v", since)
				r.need(base != nil && knownTime(p, base, items), "feed-since", c+": from", ask.Pos, "the items are asked for from something other than the time of one that is already there: %v", base)
				all := fieldAt(p, ask.Mem, cl, "config", "AllData")
				r.need(p.Not(all), "feed-since", c+": all", ask.Pos, "not all is asked for although all is wanted")
			} else {
				r.need(true, "feed-since", c, ask.Pos, "")
			}
		}
		list := fieldAt(p, justAfter(p, ask), target(ask), "FeedItems")
		eachOf(r, "kept-all", c, p, list, func(b *Path, s *scan) bool { return keptUnder(b, s, items, "FeedItemUid") }, "the items received")
	}
	r.need(n > 0, "feed-asked", c+": possible", feed.Pos(), "it never succeeds")
	r.atLeast("feed-since", 3)

	e = r.runFn(sync, nil, askConfig("cmd/download.StarlingClient.syncFeed", "cmd/utils.SaveToFile"))
	c = shortFn(sync)
	cl = param(sync, 0)
	losesNothing(r, sync, e)
	saved(r, sync, e)
	accts := func(b *Path, m *Mem) *Term { return fieldAt(b, m, stateOf(b, m, cl), "Accounts") }
	feeds := func(b *Path, evs []*Event, acct, uid *Term) bool {
		for _, ev := range filterCalls(evs, func(ev *Event) bool { return ev.Fn == feed }) {
			if b.isNil(ev.err()) && ev.Args[0] == cl && ev.Args[1] == acct && ev.Args[3] == uid {
				return true
			}
		}
		return false
	}
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		ask := askFor(p.Events(), p, `https://api\.starlingbank\.com/api/v2/accounts`)
		if !r.need(ask != nil && p.isNil(ask.err()), "accounts", c, p.Pos, "it succeeds without having received the accounts") {
			continue
		}
		list := fieldAt(p, justAfter(p, ask), target(ask), "Accounts")
		eachOf(r, "kept-all", c+": accounts", p, list, func(b *Path, s *scan) bool {
			rec := recordOf(b, s)
			key := fieldAt(b, s.l.IterMem, rec, "AccountUid")
			m := accts(b, s.l.IterMem)
			mt, et := mapOf(m)
			if mt == nil {
				return false
			}
			now := b.Load(mapEnt(m, key, mt), et)
			return b.Load(T.mk(OMapHas, "", nil, m, key), boolT()).isTrue() && fieldAt(b, b.Mem, now, "Account") == rec ||
				b.Holds(b.LoadAt(s.l.IterMem, T.mk(OMapHas, "", nil, m, key), boolT())) && fieldAt(b, b.Mem, now, "Account") == rec
		}, "the accounts received")
		eachAccount(r, p, c, ask, accts, func(b *Path, s *scan, id *Term) bool {
			evs := b.in(s.l)
			el := s.elem(b)
			good := true
			ids := askFor(evs, b, `https://api\.starlingbank\.com/api/v2/accounts/`, same(id), `/identifiers`)
			good = r.need(ids != nil && b.isNil(ids.err()) && target(ids) == addrOf(el, "Identifiers"), "accounts", c+": identifiers", b.Pos, "the identifiers of an account are not kept") && good
			good = r.need(feedsMain(b, evs, feed, cl, el), "accounts", c+": main", b.Pos, "the items of an account itself are not downloaded") && good
			sp := askFor(evs, b, `https://api\.starlingbank\.com/api/v2/account/`, same(id), `/spaces`)
			if !r.need(sp != nil && b.isNil(sp.err()) && target(sp) == addrOf(el, "Spaces"), "accounts", c+": spaces", b.Pos, "the spaces of an account are not kept") {
				return false
			}
			for _, kind := range [][2]string{{"SavingsGoals", "SavingsGoalUid"}, {"SpendingSpaces", "SpaceUid"}} {
				kind := kind
				found := false
				for _, l := range b.innerLoops(s.l) {
					l := l
					lst := fieldAt(b, l.EntryMem, el, "Spaces", kind[0])
					i, ok := b.idxScan(l, mkLen(lst))
					if !ok {
						continue
					}
					found = true
					in := &scan{l, lst, i, nil}
					for _, q := range l.Backs {
						uid := fieldAt(q, l.IterMem, in.elemAddr(), kind[1])
						good = r.need(feeds(q, q.in(l), el, uid), "accounts", c+": "+kind[0], q.Pos, "the items of a space are not downloaded") && good
					}
				}
				good = r.need(found, "accounts", c+": "+kind[0], b.Pos, "not all spaces are gone over") && good
			}
			return good
		})
		pay := askFor(p.Events(), p, `https://api\.starlingbank\.com/api/v2/payees`)
		if r.need(pay != nil && p.isNil(pay.err()), "accounts", c+": payees", p.Pos, "the payees are not downloaded") {
			sv := p.calls(func(ev *Event) bool { return ev.is("cmd/utils.SaveToFile") })
			if len(sv) == 1 {
				got := fieldAt(p, justAfter(p, pay), target(pay), "Payees")
				r.need(fieldAt(p, sv[0].Mem, stateOf(p, sv[0].Mem, cl), "Payees") == got, "accounts", c+": payees kept", p.Pos, "the payees are not kept")
			}
		}
	}
}

// addrOf is the address of a field of the object
func addrOf(base *Term, name string) *Term {
	if base == nil || base.Typ == nil {
		return T.mk(OUndef, name, nil)
	}
	st := deref(base.Typ)
	k := fieldIdx(st, name)
	if k < 0 {
		return T.mk(OUndef, name, nil)
	}
	return fldAddr(base, st, k)
}

// feedsMain: the items of the account's own category are downloaded
func feedsMain(b *Path, evs []*Event, feed *ssa.Function, cl, acct *Term) bool {
	for _, ev := range filterCalls(evs, func(ev *Event) bool { return ev.Fn == feed }) {
		if b.isNil(ev.err()) && ev.Args[0] == cl && ev.Args[1] == acct && ev.Args[3] == fieldAt(b, ev.Mem, acct, "Account", "DefaultCategory") {
			return true
		}
	}
	return false
}

// knownTime: t is the time at which one of the items was changed
func knownTime(p *Path, t *Term, items func(*Path, *Mem) *Term) bool {
	if t.Op != OCall || t.Aux != "time.Parse.0" || t.Args[0] != cStr(rfc3339) {
		return false
	}
	txt := t.Args[1]
	for _, l := range p.loopsOn() {
		m := items(p, l.EntryMem)
		if _, isM := typUnder(m).(*types.Map); !isM {
			continue
		}
		k, ok := p.mapScan(l, m)
		if !ok {
			continue
		}
		s := &scan{l, m, nil, k}
		for _, v := range l.Vars {
			if v != txt || l.Entry[v] != cStr("") {
				continue
			}
			good := true
			for _, b := range l.Backs {
				if s.elem(b).isNil() {
					continue // a map that was just made
				}
				it := fieldAt(b, l.IterMem, s.elem(b), "UpdatedAt")
				nx := b.Next[v]
				newer := b.Holds(cmp0(">", nSub(it, v))) || b.Holds(cmp0("<", nSub(v, it))) || b.Holds(cmp0("=", mkLen(v))) || b.Holds(cmp0("=", nSub(v, cStr("")))) || b.Not(cmp0("<", nSub(it, v))) || b.Not(cmp0(">", nSub(v, it)))
				older := b.Not(cmp0(">", nSub(it, v))) || b.Not(cmp0("<", nSub(v, it))) || b.Holds(cmp0("<", nSub(it, v)))
				good = good && (nx == it && newer || nx == v && older)
			}
			if good {
				return true
			}
		}
	}
	return false
}

func checkNordigen(r *Report) {
	sync := r.fn("cmd/download.NordigenClient.Sync")
	if sync == nil {
		return
	}
	e := r.runFn(sync, nil, askConfig("cmd/utils.SaveToFile"))
	c := shortFn(sync)
	cl := param(sync, 0)
	losesNothing(r, sync, e)
	saved(r, sync, e)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		asks := asksIn(p.Events())
		if !r.need(len(asks) > 0 && p.isNil(asks[0].err()), "accounts", c, p.Pos, "it succeeds without having asked which accounts there are") {
			continue
		}
		ask := asks[0]
		req := fieldAt(p, ask.Mem, stateOf(p, ask.Mem, cl), "Requisition")
		id := fieldAt(p, ask.Mem, req, "Id")
		r.need(urlIs(p, ask, `https://ob\.nordigen\.com/api/v2/requisitions/`, same(id), `/`) && target(ask) == req, "accounts", c+": requisition", ask.Pos, "it is not asked which accounts there are: %v", ask.Args)
		var sc *scan
		for _, ev := range p.Events() {
			if ev.Kind != "loop" || sc != nil {
				continue
			}
			lst := fieldAt(p, ev.Loop.EntryMem, fieldAt(p, ev.Loop.EntryMem, stateOf(p, ev.Loop.EntryMem, cl), "Requisition"), "Accounts")
			if i, ok := p.idxScan(ev.Loop, mkLen(lst)); ok {
				sc = &scan{ev.Loop, lst, i, nil}
			}
		}
		if !r.need(sc != nil, "accounts", c+": all", p.Pos, "not all accounts are gone over") {
			continue
		}
		for _, b := range sc.l.Backs {
			evs := b.in(sc.l)
			aid := sc.elem(b)
			base := `https://ob\.nordigen\.com/api/v2/accounts/`
			basic := askFor(evs, b, base, same(aid), `/`)
			detail := askFor(evs, b, base, same(aid), `/details/?`)
			trans := askFor(evs, b, base, same(aid), `/transactions/?`)
			if !r.need(basic != nil && detail != nil && trans != nil && b.isNil(basic.err()) && b.isNil(detail.err()) && b.isNil(trans.err()), "accounts", c+": each", b.Pos, "not everything of an account is downloaded") {
				continue
			}
			// what holds it is the one kept under the account
			hold := target(basic).Args[0]
			r.need(target(basic) == addrOf(hold, "Basic") && target(detail) == addrOf(hold, "Details"), "accounts", c+": description", b.Pos, "what describes an account is not kept with it")
			all := fieldAt(b, sc.l.IterMem, stateOf(b, sc.l.IterMem, cl), "Accounts")
			mt, et := mapOf(all)
			kept := false
			if mt != nil {
				kept = b.LoadAt(basic.Mem, mapEnt(all, aid, mt), et) == hold
			}
			r.need(kept, "accounts", c+": kept", b.Pos, "what is downloaded of an account is not kept under it")
			list := fieldAt(b, justAfter(b, trans), target(trans), "Transactions", "Booked")
			var in *scan
			for _, l := range b.innerLoops(sc.l) {
				if i, ok := b.idxScan(l, mkLen(list)); ok {
					in = &scan{l, list, i, nil}
				}
			}
			if !r.need(in != nil || b.Holds(cmp0("=", mkLen(list))), "kept-all", c, b.Pos, "not all of the transactions received are gone over") || in == nil {
				continue
			}
			for _, q := range in.l.Backs {
				r.need(keptUnder(q, in, func(q *Path, m *Mem) *Term { return fieldAt(q, m, hold, "Transactions") }, "Id"), "kept-all", c+": each", q.Pos, "not each of the transactions received is kept as it should be")
			}
		}
	}
}

// checkClients: what is synchronised is what was loaded, and is kept where it was loaded from
func checkClients(r *Report) {
	n := 0
	for _, f := range allFuncs {
		if !inRepo(f) || relPkg(pkgOf(f)) != "cmd/download" || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil || f.Signature.Results().Len() != 2 {
			continue
		}
		ct := f.Signature.Results().At(0).Type()
		if fieldIdx(deref(ct), "data") < 0 || fieldIdx(deref(ct), "file") < 0 {
			continue
		}
		n++
		c := shortFn(f)
		e := r.runFn(f, nil, askConfig("cmd/utils.LoadFromFile", "cmd/utils.SaveToFile", "cmd/download.CaptureCode"))
		losesNothing(r, f, e)
		good := 0
		for _, p := range e.returns() {
			ld := p.calls(func(ev *Event) bool { return ev.is("cmd/utils.LoadFromFile") })
			for _, ev := range p.calls(func(ev *Event) bool { return ev.is("cmd/utils.SaveToFile") }) {
				r.need(len(ld) == 1 && p.isNil(ld[0].err()) && ev.Args[0] == ld[0].Args[0] && unIface(ev.Args[1]) == unIface(ld[0].Args[1]), "loaded", c+": saved", ev.Pos, "something other than the state loaded is saved, or elsewhere")
			}
			if retErr(p) == 1 {
				continue
			}
			good++
			if !r.need(len(ld) == 1 && p.isNil(ld[0].err()), "loaded", c, p.Pos, "the state is not loaded, or may not have been") {
				continue
			}
			x := p.Results[0]
			r.need(fieldAt(p, p.Mem, x, "file") == ld[0].Args[0] && fieldAt(p, p.Mem, x, "data") == unIface(ld[0].Args[1]), "loaded", c+": kept", p.Pos, "what is synchronised is not the state loaded, or is saved elsewhere")
			fileParam := false
			for i := range f.Params {
				if ld[0].Args[0] == param(f, i) {
					fileParam = true
				}
			}
			r.need(fileParam, "loaded", c+": file", ld[0].Pos, "it is not the given file that is loaded")
		}
		r.need(good > 0, "loaded", c+": possible", f.Pos(), "it never succeeds")
	}
	r.need(n >= 3, "loaded", "clients", noPos, "%d functions found that load the state of a download, expected 3", n)
}

// justAfter is the memory after the effect of the call, before anything else
func justAfter(p *Path, ev *Event) *Mem {
	evs := p.Events()
	for i, x := range evs {
		if x != ev || i+1 == len(evs) {
			continue
		}
		nx := evs[i+1]
		m := nx.Mem
		if nx.Kind == "loop" && nx.Loop != nil {
			m = nx.Loop.EntryMem
		}
		// back to the first write after the call
		last := m
		for x := m; x != nil && x != ev.Mem; x = x.prev {
			if x.kind == mWrite {
				last = x.prev
			}
		}
		if last != nil {
			return last
		}
	}
	return memAfter(p, ev)
}

// ---- records are kept as they were received

// what identifies and describes a record: field and the key it is read from
var recordKeys = map[string]map[string]string{
	"cmd/download.MonzoAccount":        {"ID": "id"},
	"cmd/download.Transaction":         {"ID": "id", "Created": "created"},
	"cmd/download.StarlingAccount":     {"AccountUid": "accountUid", "DefaultCategory": "defaultCategory", "CreatedAt": "createdAt"},
	"cmd/download.SavingsGoal":         {"SavingsGoalUid": "savingsGoalUid"},
	"cmd/download.SpendingSpace":       {"SpaceUid": "spaceUid"},
	"cmd/download.FeedItem":            {"FeedItemUid": "feedItemUid", "UpdatedAt": "updatedAt"},
	"cmd/download.Institution":         {"Id": "id"},
	"cmd/download.Requisition":         {"Id": "id", "Accounts": "accounts"},
	"cmd/download.NordigenTransaction": {"Id": "transactionId"},
}

func checkReceived(r *Report) {
	dl := thePkgs[modPath+"/cmd/download"]
	if !r.need(dl != nil, "anchor", "cmd/download", noPos, "there are no downloads") {
		return
	}
	asIs := map[string]bool{}
	for _, name := range dl.Types.Scope().Names() {
		tn, ok := dl.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		q := "cmd/download." + name
		un, ma := lookup(q+".UnmarshalJSON"), lookup(q+".MarshalJSON")
		if un == nil && ma == nil {
			continue
		}
		if !r.need(un != nil && ma != nil && len(un.Blocks) > 0 && len(ma.Blocks) > 0, "record-both", q, n.Obj().Pos(), "it is read in another way than it is written") {
			continue
		}
		asIs[name] = true
		r.fns[fnKey(un)] = true
		checkUnmarshal(r, q, un)
		checkMarshalRaw(r, q, ma)
	}
	for q := range recordKeys {
		r.need(asIs[strings.TrimPrefix(q, "cmd/download.")], "record-both", q, noPos, "a record is not read and written as it was received")
	}
	r.atLeast("record-kept", 9)
	r.atLeast("record-written", 9)
	r.atLeast("record-key", 11)

	// what holds them is written and read back whole
	seen := map[types.Type]bool{}
	for _, q := range []string{"cmd/download.MonzoData", "cmd/download.StarlingData", "cmd/download.NordigenData"} {
		t := lookupType(q)
		if r.need(t != nil, "anchor", q, noPos, "%s is not there", q) {
			stateType(r, t, q, seen, asIs)
		}
	}
	r.atLeast("state-field", 15)
}

// stateType: every part of the type is written under a name of its own
func stateType(r *Report, t types.Type, at string, seen map[types.Type]bool, asIs map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
			return
		}
		if asIs[u.Obj().Name()] {
			return
		}
		stateType(r, u.Underlying(), "cmd/download."+u.Obj().Name(), seen, asIs)
	case *types.Pointer:
		stateType(r, u.Elem(), at, seen, asIs)
	case *types.Slice:
		stateType(r, u.Elem(), at, seen, asIs)
	case *types.Map:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && asIs[n.Obj().Name()] {
			r.need(false, "state-field", at+": entries", n.Obj().Pos(), "the entries of a map are not written as they were received: they have to be pointers")
		}
		b, ok := u.Key().Underlying().(*types.Basic)
		r.need(ok && b.Info()&(types.IsString|types.IsInteger) != 0, "state-field", at+": keys", noPos, "the keys of a map cannot be written")
		stateType(r, u.Elem(), at, seen, asIs)
	case *types.Struct:
		names := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := f.Name()
			tag := structTag(u.Tag(i), "json")
			first, rest, _ := strings.Cut(tag, ",")
			if first != "" {
				name = first
			}
			ok := f.Exported() && tag != "-" && !names[strings.ToLower(name)] && !strings.Contains(","+rest+",", ",string,") && !f.Embedded()
			names[strings.ToLower(name)] = true
			r.need(ok, "state-field", at+"."+f.Name(), f.Pos(), "this part of the state is not saved, or under the name of another")
			stateType(r, f.Type(), at, seen, asIs)
		}
	case *types.Chan, *types.Signature:
		r.need(false, "state-field", at, noPos, "this part of the state cannot be saved")
	}
}

func structTag(tag, key string) string {
	for tag != "" {
		i := strings.Index(tag, ":\"")
		if i < 0 {
			return ""
		}
		k := strings.TrimSpace(tag[:i])
		rest := tag[i+2:]
		j := strings.IndexByte(rest, '"')
		if j < 0 {
			return ""
		}
		if k == key {
			return rest[:j]
		}
		tag = rest[j+1:]
	}
	return ""
}

func checkUnmarshal(r *Report, q string, f *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	if len(f.Params) != 2 {
		return
	}
	rec, text := param(f, 0), param(f, 1)
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		n++
		var got *Event
		var cell *Term
		for _, ev := range p.calls(named("encoding/json.Unmarshal")) {
			r.need(got == nil && ev.Args[0] == text, "record-kept", c+": source", ev.Pos, "it is not what was received that is read")
			got = ev
			cell = unIface(ev.Args[1])
		}
		if !r.need(got != nil && p.isNil(got.err()), "record-kept", c+": error", p.Pos, "it succeeds although what was received may not be JSON") {
			continue
		}
		data := addrOf(rec, "Data")
		anyT := deref(data.Typ)
		it, isI := anyT.(*types.Interface)
		if !isI && anyT != nil {
			it, isI = anyT.Underlying().(*types.Interface)
		}
		raw := anyT != nil && strings.HasSuffix(anyT.String(), "json.RawMessage")
		v := p.Load(data, anyT)
		var ct types.Type
		if cell != nil && cell.Typ != nil {
			ct = deref(cell.Typ)
		}
		read := T.mk(OUndef, "none", nil)
		if ct != nil {
			read = p.LoadAt(justAfter(p, got), cell, ct)
		}
		r.need(raw || isI && it.NumMethods() == 0 && v == read && ct != nil && types.Identical(ct.Underlying(), anyT.Underlying()), "record-kept", c, p.Pos, "what is kept of a record is not the whole of what was received: %v", v)
		for field, key := range recordKeys[q] {
			x := p.Load(addrOf(rec, field), deref(addrOf(rec, field).Typ))
			m := T.mk(OTAssert, "map[string]interface{}", nil, read)
			_ = m
			ok := keyOf(p, x, read, key)
			if field == "Accounts" {
				ok = listFrom(p, x, read, key)
			}
			r.need(ok, "record-key", c+": "+field, p.Pos, "%s is not what the record has as %s: %v", field, key, x)
		}
	}
	r.need(n > 0, "record-kept", c+": possible", f.Pos(), "no record can be read")
}

// keyOf: x is the text the object v has under the key
func keyOf(p *Path, x, v *Term, key string) bool {
	if x.Op != OTAssert || x.Aux != "string" || len(x.Args) < 1 || !p.Holds(T.mk(OTAssertOK, "string", boolT(), x.Args[0])) {
		return false
	}
	return entryOf(p, x.Args[0], v, key)
}

func entryOf(p *Path, x, v *Term, key string) bool {
	if !isLoad(x) || x.Args[0].Op != OMapEnt || x.Args[0].Args[1] != cStr(key) {
		return false
	}
	m := x.Args[0].Args[0]
	return m.Op == OTAssert && strings.HasPrefix(m.Aux, "map[string]") && m.Args[0] == v && p.Holds(T.mk(OTAssertOK, m.Aux, boolT(), v))
}

// listFrom: x is a list of the texts in the list the object has under the key
func listFrom(p *Path, x, v *Term, key string) bool {
	for _, l := range p.loopsOn() {
		for _, b := range l.Backs {
			var lst *Term
			for _, f := range b.Facts() {
				f.Cond.any(func(t *Term) bool {
					if t.Op == OTAssert && strings.HasPrefix(t.Aux, "[]") && entryOf(p, t.Args[0], v, key) {
						lst = t
					}
					return false
				})
			}
			if lst == nil {
				continue
			}
			li := p.builtFrom(x, lst)
			if li == nil {
				continue
			}
			good := len(li.elems) > 0
			for q, el := range li.elems {
				good = good && el != nil && el.Op == OTAssert && el.Aux == "string" && el.Args[0] == li.sc.elem(q)
			}
			return good
		}
	}
	return false
}

func checkMarshalRaw(r *Report, q string, f *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	rec := param(f, 0)
	n := 0
	for _, p := range e.returns() {
		n++
		ms := p.calls(named("encoding/json.Marshal"))
		if retErr(p) == 1 {
			continue
		}
		ok := len(ms) == 1
		if ok {
			ev := ms[0]
			x := ev.Args[0]
			data := addrOf(rec, "Data")
			ok = (unIface(x) == data || x == p.LoadAt(ev.Mem, data, deref(data.Typ))) &&
				len(p.Results) == 2 && p.Results[0] == ev.part(0) && (p.Results[1] == ev.part(1) || p.isNil(ev.part(1)))
		}
		r.need(ok, "record-written", c, p.Pos, "what is written of a record is not what was received")
	}
	r.need(n > 0, "record-written", c+": possible", f.Pos(), "no record can be written")
}
