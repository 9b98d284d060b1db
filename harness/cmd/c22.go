package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strings"

	"github.com/giulianopz/go-readability"
)

// C22: the command. Symbolically, main is executed with models of its
// surroundings (arguments, standard output, exit, fetching); natively, the
// harness runs the command itself as a child process with the same arguments
// and the same outcome of fetching.

func vpcSymbolic() bool { return false }
func vpcUnwind()        {}

// what fetching gives
type vfetch struct {
	Addr string // where the page is
	Err  bool   // no response
	Cut  bool   // the body fails after its first half
	Page string // the body
	Step int    // how many bytes a read of the body gives, 0 for all
}

type vbody struct {
	f   vfetch
	pos int
}

func (b *vbody) Close() error { return nil }

func (b *vbody) Read(p []byte) (int, error) {
	end := len(b.f.Page)
	if b.f.Cut {
		end /= 2
	}
	n := end - b.pos
	if b.f.Step > 0 && n > b.f.Step {
		n = b.f.Step
	}
	if n > len(p) {
		n = len(p)
	}
	if n == 0 && len(p) > 0 {
		if b.f.Cut {
			return 0, errors.New("connection reset")
		}
		return 0, io.EOF
	}
	copy(p[:n], b.f.Page[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (f vfetch) response(u string) (*http.Response, error) {
	if f.Err || u != f.Addr {
		return nil, errors.New("no such host")
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/html; charset=utf-8"}}, Body: &vbody{f: f}, ContentLength: -1}, nil
}

// the state of the modelled surroundings
var vcmd struct {
	fetch  vfetch
	code   int
	out    string
	errs   string
	logger io.Writer
}

func vpcMain() {
	defer func() {
		if e := recover(); e != nil {
			vcmd.code = 2
			vcmd.errs += "panic"
		}
	}()
	main()
}

func vpcExit(code int) {
	vcmd.code = code
	vpcUnwind()
}

func vpcFatal(a ...any) {
	vcmd.errs += fmt.Sprint(a...) + "\n"
	vpcExit(1)
}

func vpcFatalf(format string, a ...any) {
	vcmd.errs += fmt.Sprintf(format, a...) + "\n"
	vpcExit(1)
}

func vpcFatalln(a ...any) {
	vcmd.errs += fmt.Sprintln(a...)
	vpcExit(1)
}

func vpcPrint(a ...any) (int, error)   { return vpcFileWriteString(os.Stdout, fmt.Sprint(a...)) }
func vpcPrintln(a ...any) (int, error) { return vpcFileWriteString(os.Stdout, fmt.Sprintln(a...)) }
func vpcPrintf(format string, a ...any) (int, error) {
	return vpcFileWriteString(os.Stdout, fmt.Sprintf(format, a...))
}

func vpcLogPrint(a ...any)                 { vpcLog(fmt.Sprint(a...)) }
func vpcLogPrintf(format string, a ...any) { vpcLog(fmt.Sprintf(format, a...)) }
func vpcLogOutput(w io.Writer)             { vcmd.logger = w }
func vpcLogFlags(n int)                    {}

func vpcLog(s string) {
	if vcmd.logger != nil {
		io.WriteString(vcmd.logger, s+"\n")
	} else {
		vcmd.errs += s + "\n"
	}
}

func vpcFileWrite(f *os.File, b []byte) (int, error) { return vpcFileWriteString(f, string(b)) }

func vpcFileWriteString(f *os.File, s string) (int, error) {
	if f == os.Stdout {
		vcmd.out += s
	} else if f == os.Stderr {
		vcmd.errs += s
	}
	return len(s), nil
}

func vpcFileSync(f *os.File) error { return nil }

func vpcFileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, _ := vpcFileWrite(f, b)
	return int64(n), err
}

func vpcGetenv(k string) string { return "" }

func vpcGet(u string) (*http.Response, error) {
	r, err := vcmd.fetch.response(u)
	if err != nil {
		return nil, &url.Error{Op: "Get", URL: u, Err: err}
	}
	return r, nil
}

func vpcClientGet(c *http.Client, u string) (*http.Response, error) { return vpcGet(u) }
func vpcClientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	return vpcGet(r.URL.String())
}

func vpcNewRequest(method, u string, body io.Reader) (*http.Request, error) {
	x, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	return &http.Request{Method: method, URL: x, Header: http.Header{}, Host: x.Host}, nil
}

func vpcNewRequestCtx(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	return vpcNewRequest(method, u, body)
}

// A handler that remembers where it writes and from which level on.
type vhandler struct {
	slog.Handler
	w     io.Writer
	debug bool
}

var vlogs = map[*slog.Logger]*vhandler{}
var vdefault *vhandler
var vhandlers = map[any]*vhandler{}

func vlogTo(w io.Writer, o *slog.HandlerOptions) *vhandler {
	return &vhandler{w: w, debug: o != nil && o.Level != nil && o.Level.Level() < slog.LevelInfo}
}

func vpcTextHandler(w io.Writer, o *slog.HandlerOptions) *slog.TextHandler {
	h := &slog.TextHandler{}
	vhandlers[h] = vlogTo(w, o)
	return h
}

func vpcJSONHandler(w io.Writer, o *slog.HandlerOptions) *slog.JSONHandler {
	h := &slog.JSONHandler{}
	vhandlers[h] = vlogTo(w, o)
	return h
}

func vpcNewLogger(h slog.Handler) *slog.Logger {
	l := &slog.Logger{}
	vlogs[l] = vhandlers[any(h)]
	return l
}

func vpcSetDefault(l *slog.Logger) { vdefault = vlogs[l] }

func vpcSlog(msg string, a ...any) {
	if vdefault == nil {
		vcmd.errs += msg + "\n"
	} else {
		io.WriteString(vdefault.w, msg+"\n")
	}
}

func vpcSlogDebug(msg string, a ...any) {
	if vdefault != nil && vdefault.debug {
		vpcSlog(msg)
	}
}

// vcommand runs the command.
func vcommand(args []string, f vfetch) (code int, out, errs string) {
	if vpcSymbolic() {
		os.Args = append([]string{"readability"}, args...)
		os.Stdout, os.Stderr, os.Stdin = new(os.File), new(os.File), new(os.File)
		http.DefaultClient = &http.Client{}
		vcmd.fetch = f
		vpcMain()
		return vcmd.code, vcmd.out, vcmd.errs
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	j, _ := json.Marshal(f)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "VX_NATIVE=", "VX_CHILD=1")
	in, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{in}
	go func() {
		w.Write(j)
		w.Close()
	}()
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	in.Close()
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = x.ExitCode()
	}
	return code, o.String(), e.String()
}

type vtransport struct{ f vfetch }

func (t vtransport) RoundTrip(r *http.Request) (*http.Response, error) {
	x, err := t.f.response(r.URL.String())
	if x != nil {
		x.Request = r
	}
	return x, err
}

func init() {
	if os.Getenv("VX_CHILD") != "" {
		in := os.NewFile(3, "fetch")
		var f vfetch
		if err := json.NewDecoder(in).Decode(&f); err != nil {
			panic(err)
		}
		in.Close()
		http.DefaultTransport = vtransport{f}
		return
	}
	readability.VxRegister("vhCommand", vhCommand)
	readability.VxRegister("vhCommandLong", vhCommandLong)
	if os.Getenv("VX_NATIVE") == "" {
		return
	}
	w := bufio.NewWriter(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for sc.Scan() {
		var j struct {
			H string           `json:"h"`
			A map[string]int64 `json:"a"`
		}
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			continue
		}
		o, m, obs := readability.VxRun(j.H, j.A)
		enc.Encode(map[string]any{"outcome": o, "msg": m, "obs": obs})
		w.Flush()
	}
	os.Exit(0)
}

// Command lines and outcomes of fetching.
func vhCommand() {
	p := "<p>This is a paragraph, of some length, that says 100% of what %d and %s stand for.</p>"
	q := "<p>Another one, with a <a href='x?y=1&amp;z=2'>link</a> and \\n <b>bold</b> text, \u00e9\u4e16.</p>"
	page := readability.VxPick("page",
		"<html><head><title>T</title></head><body><article>"+p+q+"</article></body></html>",
		"<html><head><title>T</title></head><body><article>"+strings.Repeat(p+q, 6)+"</article></body></html>",
		"<html><head><title>T</title></head><body><div>"+p+"<p hidden>Not this one, it is hidden.</p>\n<pre>  a\n\tb </pre>"+q+"</div>\n\n</body></html>",
		"<html><body></body></html>",
		"",
		"plain text")
	addr := readability.VxPick("addr", "http://h.test/d/a.html", "https://h.test/?q=a%20b&c=%25d", "")
	f := vfetch{Addr: addr, Page: page}
	switch readability.VxPick("fetch", "whole", "pieces", "cut", "fails") {
	case "pieces":
		f.Step = 100
	case "cut":
		f.Cut = true
	case "fails":
		f.Err = true
	}
	html := false
	var args []string
	switch readability.VxPick("o", "", "-o text", "-o html", "-o=html", "--o html", "-output html", "--output=html", "-output text", "-o text -o html", "-output html -o text", "-o markdown", "-output=") {
	case "":
	case "-o text":
		args = []string{"-o", "text"}
	case "-o html":
		args, html = []string{"-o", "html"}, true
	case "-o=html":
		args, html = []string{"-o=html"}, true
	case "--o html":
		args, html = []string{"--o", "html"}, true
	case "-output html":
		args, html = []string{"-output", "html"}, true
	case "--output=html":
		args, html = []string{"--output=html"}, true
	case "-output text":
		args = []string{"-output", "text"}
	case "-o text -o html":
		args, html = []string{"-o", "text", "-o", "html"}, true
	case "-output html -o text":
		args = []string{"-output", "html", "-o", "text"}
	case "-o markdown":
		args = []string{"-o", "markdown"}
	case "-output=":
		args = []string{"-output="}
	}
	switch readability.VxPick("v", "", "-v", "-verbose", "-v=false", "-v last") {
	case "-v":
		args = append([]string{"-v"}, args...)
	case "-verbose":
		args = append([]string{"-verbose"}, args...)
	case "-v=false":
		args = append(args, "-v=false")
	case "-v last":
		args = append(args, "-v")
	}
	if addr != "" || readability.VxBool("empty") {
		args = append(args, addr)
	}
	want, ok := "", false
	if addr != "" && !f.Err && !f.Cut {
		if r, err := readability.New(page, addr); err == nil {
			if res, err := r.Parse(); err == nil {
				ok = true
				want = res.TextContent
				if html {
					want = res.HTMLContent
				}
			}
		}
	}
	code, out, errs := vcommand(args, f)
	readability.VxObserve("out", out)
	if ok {
		readability.VxAssert(code == 0, "the command succeeds")
		readability.VxAssert(out == want, "the command prints the article and nothing else")
		readability.VxReach("printed")
	} else {
		readability.VxAssert(code == 1, "the command fails with status 1")
		readability.VxAssert(strings.TrimSpace(out+errs) != "", "the command says why it fails")
		readability.VxReach("failed")
	}
}

// Long pages: the article stands behind a comment of some length.
func vhCommandLong() {
	n := map[string]int{"5000": 5000, "70000": 70000, "300000": 300000, "1100000": 1100000}[readability.VxPick("length", "5000", "70000", "300000", "1100000")]
	f := vfetch{Addr: "http://h.test/", Page: "<html><body><!--" + strings.Repeat("-x", n/2) + "--><article><p>This is a paragraph, of some length.</p><p>And this, too, is one.</p></article></body></html>"}
	if readability.VxPick("fetch", "whole", "pieces") == "pieces" {
		f.Step = 4000
	}
	code, out, _ := vcommand([]string{f.Addr}, f)
	readability.VxObserve("out", out)
	readability.VxAssert(code == 0 && strings.Contains(out, "of some length") && strings.Contains(out, "this, too"), "the command prints the article of a long page")
	readability.VxReach("printed")
}
