package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/uipx"

	"github.com/qiniu/uip/db/inf"
	"pgregory.net/rapid"
)

// server is a running server command.
type server struct {
	addr   string
	cmd    *exec.Cmd
	done   chan struct{}
	stderr bytes.Buffer
}

// startServer starts the server on a free port of a loopback address of this process.
func startServer(file string) (*server, error) {
	exe := os.Getenv("VERIF_CMD_SERVER")
	if exe == "" {
		return nil, pbt.Infra(fmt.Errorf("the server was not built"))
	}
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>16&0x3f, pid>>8&0xff, 1+pid%250)
	var last error
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", host+":0")
		if err != nil {
			return nil, pbt.Infra(err)
		}
		s := &server{addr: l.Addr().String(), done: make(chan struct{})}
		l.Close()
		s.cmd = exec.Command(exe, file, s.addr)
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		s.cmd.Stderr = &s.stderr
		if err := s.cmd.Start(); err != nil {
			return nil, pbt.Infra(err)
		}
		go func() { s.cmd.Wait(); close(s.done) }()
		for t0 := time.Now(); time.Since(t0) < 100*time.Second; {
			if c, err := net.Dial("tcp", s.addr); err == nil {
				c.Close()
				return s, nil
			}
			select {
			case <-s.done:
				last = pbt.Violationf("the server ends instead of serving: %.800s", s.stderr.String())
				if !strings.Contains(s.stderr.String(), "address already in use") {
					return nil, last
				}
				t0 = time.Time{}
			case <-time.After(time.Millisecond):
			}
		}
		s.stop()
		if last == nil {
			last = pbt.Infra(fmt.Errorf("the server does not come up"))
		}
	}
	return nil, last
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
}

// client is a kept connection.
type client struct {
	s *server
	c net.Conn
	r *bufio.Reader
}

func (c *client) close() {
	if c.c != nil {
		c.c.Close()
		c.c = nil
	}
}

// do sends a request with a target given literally.
func (c *client) do(method, target, header string) (code int, body []byte, err error) {
	for try := 0; try < 2; try++ {
		fresh := c.c == nil
		if fresh {
			if c.c, err = net.Dial("tcp", c.s.addr); err != nil {
				return 0, nil, pbt.Violationf("%s %s: the server takes no connection: %v", method, target, err)
			}
			c.r = bufio.NewReader(c.c)
		}
		c.c.SetDeadline(time.Now().Add(100 * time.Second))
		version, host := "1.1", "Host: localhost\r\n"
		if header == "old" {
			version, header, host = "1.0", "", ""
		}
		if strings.HasPrefix(header, "Host:") {
			host = ""
		}
		_, err = io.WriteString(c.c, method+" "+target+" HTTP/"+version+"\r\n"+host+header+"\r\n")
		var res *http.Response
		if err == nil {
			res, err = http.ReadResponse(c.r, &http.Request{Method: method})
		}
		if err == nil {
			body, err = io.ReadAll(res.Body)
			res.Body.Close()
			if res.Close {
				c.close()
			}
			if err == nil && res.Header.Get("Content-Encoding") == "gzip" && len(body) > 0 && strings.Contains(header, "gzip") {
				var z *gzip.Reader
				if z, err = gzip.NewReader(bytes.NewReader(body)); err == nil {
					body, err = io.ReadAll(z)
				}
			}
			if err == nil {
				return res.StatusCode, body, nil
			}
		}
		c.close()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return 0, nil, pbt.Infra(fmt.Errorf("%s %s: %v", method, target, err))
		}
		if fresh {
			break
		}
	}
	return 0, nil, pbt.Violationf("%s %s: no response: %v", method, target, err)
}

// request is one request: a path and how it is written.
type request struct {
	Path  string `json:"path"` // as seen by the server
	Enc   int    `json:"enc"`  // which characters are written percent-encoded
	Query string `json:"query,omitempty"`
	Head  bool   `json:"head,omitempty"`  // asks for the status only
	Extra string `json:"extra,omitempty"` // more headers; "old" for HTTP/1.0
}

// moreHeaders change nothing.
var moreHeaders = []string{"Accept: application/json\r\nUser-Agent: curl/8.5.0\r\n", "Accept: text/html,*/*;q=0.8\r\nAccept-Language: en\r\n", "Accept-Encoding: gzip, deflate, br\r\n",
	"X-Forwarded-For: 8.8.8.8, 1.2.3.4\r\nX-Real-IP: 8.8.8.8\r\n", "Range: bytes=0-3\r\n", "If-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT\r\n", "If-None-Match: *\r\n",
	"Connection: close\r\n", "Connection: keep-alive\r\nCookie: lang=en; ip=1.2.3.4\r\n", "Host: 1.2.3.4:80\r\nOrigin: http://example.com\r\n", "Authorization: Basic YTpi\r\n", "Cache-Control: no-cache\r\nPragma: no-cache\r\n", "old"}

func (r request) target() string {
	var s strings.Builder
	s.WriteByte('/')
	for i := 0; i < len(r.Path); i++ {
		b := r.Path[i]
		plain := b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '.' || b == ':' || b == '/' || b == '-'
		if plain && (r.Enc == 0 || (i+1)%(r.Enc+1) != 0 || b == '/') {
			s.WriteByte(b)
		} else {
			fmt.Fprintf(&s, "%%%02X", b)
		}
	}
	return s.String() + r.Query
}

// unclean paths are redirected by any Go server.
func (r request) unclean() bool {
	p := "/" + r.Path
	c := path.Clean(p)
	return p != c && p != c+"/" || strings.Contains(p, "//")
}

type serverCase struct {
	D        DbCase    `json:"d"`
	Req      []request `json:"req"`
	Parallel int       `json:"parallel"`
	Repeat   int       `json:"repeat,omitempty"` // all requests so many times more
}

func genServer(t *rapid.T) serverCase {
	k := serverCase{D: genDbCase(t, rapid.IntRange(0, 2).Draw(t, "cover") > 0), Parallel: rapid.SampledFrom([]int{1, 1, 4}).Draw(t, "parallel")}
	if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
		k.Repeat = rapid.IntRange(5, 40).Draw(t, "repeat")
	}
	o, err := k.D.open()
	if err != nil {
		return k // the check will say
	}
	probes := o.probes(40)
	n := rapid.IntRange(1, 25).Draw(t, "nreq")
	for i := 0; i < n; i++ {
		var r request
		switch rapid.IntRange(0, 9).Draw(t, "reqkind") {
		case 0:
			r.Path = rapid.SampledFrom([]string{"version", "version", "Version", "version/", "versio", "version/1.2.3.4", "", "favicon.ico", "1.2.3.4/", "/1.2.3.4", "./8.8.8.8", "../version", "ip/8.8.8.8"}).Draw(t, "path")
		case 1, 2:
			r.Path = genJunk(t)
		default:
			s := spellings(probes[rapid.IntRange(0, len(probes)-1).Draw(t, "probe")])
			r.Path = rapid.SampledFrom(s).Draw(t, "spelling")
		}
		r.Enc = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 7}).Draw(t, "enc")
		if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			r.Extra = rapid.SampledFrom(moreHeaders).Draw(t, "headers")
		}
		r.Head = rapid.IntRange(0, 9).Draw(t, "head") == 0
		r.Query = rapid.SampledFrom([]string{"", "", "", "?", "?ip=8.8.8.8", "?/1.2.3.4"}).Draw(t, "query")
		k.Req = append(k.Req, r)
	}
	return k
}

// attributes are the non-empty values of a record by their names in JSON.
func attributes(r uipx.Rec) map[string]string {
	m := map[string]string{}
	for _, f := range []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"} {
		if v := r.Get(f); v != "" {
			m[f] = v
		}
	}
	return m
}

func checkX02(c *pbt.Ctx, k serverCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	c.Class("%s", o.kind)
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	file := filepath.Join(c.Dir(), "db"+o.kind)
	if err := os.WriteFile(file, o.bytes, 0o600); err != nil {
		return pbt.Infra(err)
	}
	s, err := startServer(file)
	if err != nil {
		return err
	}
	defer s.stop()
	ver := db.VersionInfo()
	var mu sync.Mutex
	hits, misses := 0, 0
	one := func(cl *client, r request) error {
		method := "GET"
		if r.Head {
			method = "HEAD"
		}
		code, body, err := cl.do(method, r.target(), r.Extra)
		if err != nil {
			return err
		}
		fail := func(want string) error {
			return pbt.Violationf("%s %s: status %d, body %.400q; expected %s", method, r.target(), code, body, want)
		}
		if r.unclean() {
			if code != 404 && code/100 != 3 {
				return fail("status 404 or a redirection")
			}
			return nil
		}
		if r.Head && (r.Path == "version" || code == 200) {
			a, ok := model.ParseAddr(r.Path)
			if ok {
				_, _, ok = o.answer(a)
			}
			if code != 200 || r.Path != "version" && !ok {
				return fail("the status of the GET request, 404 or for the version 200")
			}
			return nil
		}
		if r.Path == "version" {
			var v inf.VersionInfo
			if code != 200 || json.Unmarshal(body, &v) != nil || v.IpType != ver.IpType || v.Count != ver.Count || v.Build != ver.Build || v.Version != ver.Version ||
				!sameStrings(v.Languages, ver.Languages) || !sameStrings(v.ExtraInfo, ver.ExtraInfo) {
				return fail(fmt.Sprintf("the version information %v", ver))
			}
			return nil
		}
		a, ok := model.ParseAddr(r.Path)
		var rec uipx.Rec
		if ok {
			rec, _, ok = o.answer(a)
		}
		mu.Lock()
		if ok {
			hits++
		} else {
			misses++
		}
		mu.Unlock()
		if !ok {
			if code != 404 {
				return fail("status 404")
			}
			return nil
		}
		want := attributes(rec)
		var got map[string]string
		if code != 200 || json.Unmarshal(body, &got) != nil || got == nil || fmt.Sprint(got) != fmt.Sprint(want) {
			return fail(fmt.Sprintf("%q", want))
		}
		return nil
	}
	if k.Parallel > 1 {
		c.Class("parallel")
	}
	errs := make([]error, k.Parallel)
	var wg sync.WaitGroup
	for p := 0; p < k.Parallel; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			cl := &client{s: s}
			defer cl.close()
			for i := 0; i < len(k.Req)*(1+k.Repeat); i++ {
				if errs[p] = one(cl, k.Req[(i+p*7)%len(k.Req)]); errs[p] != nil {
					return
				}
			}
		}(p)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			select {
			case <-s.done:
				err = pbt.Violationf("%v; the server ended: %.1500s", err, s.stderr.String())
			default:
			}
			return err
		}
	}
	if hits > 1 && misses > 0 {
		c.NonTrivial()
	}
	return nil
}

// the command for a single lookup

type simpleCase struct {
	D   DbCase   `json:"d"`
	Arg []string `json:"arg"`
}

func checkSimple(c *pbt.Ctx, k simpleCase) error {
	o, err := k.D.open()
	if err != nil {
		return err
	}
	db, err := uipx.Load(o.kind, o.bytes)
	if err != nil {
		return pbt.Violationf("loading fails: %v", err)
	}
	file := filepath.Join(c.Dir(), "db"+o.kind)
	if err := os.WriteFile(file, o.bytes, 0o600); err != nil {
		return pbt.Infra(err)
	}
	for _, arg := range k.Arg {
		if strings.Contains(arg, "\x00") {
			continue
		}
		r, err := runCmd("simple", file, arg)
		if err != nil {
			return err
		}
		fail := func(want string) error {
			return pbt.Violationf("simple %s %q: status %d, output %.500q, expected %q; %.300s", o.kind, arg, r.code, r.stdout, want, r.stderr)
		}
		if strings.HasPrefix(arg, "v") {
			if want := db.VersionInfo().String(); r.code != 0 || strings.TrimSpace(r.stdout) != strings.TrimSpace(want) {
				return fail(want)
			}
			c.Class("version")
			continue
		}
		var rec uipx.Rec
		a, ok := model.ParseAddr(arg)
		if ok {
			rec, _, ok = o.answer(a)
		}
		if !ok {
			if strings.TrimSpace(r.stdout) != "" {
				return fail("")
			}
			c.Class("no record")
			continue
		}
		want := fmt.Sprintf("%+v\n", &inf.IpInfo{Country: rec.Country, Province: rec.Province, City: rec.City, Isp: rec.Isp,
			Asn: rec.Asn, Continent: rec.Continent, Line: rec.Line, District: rec.District})
		if r.stdout != want {
			return fail(want)
		}
		c.NonTrivial()
	}
	return nil
}

func init() {
	pbt.Register("X02", "server", pbt.Options{
		Rule:  "the built server on random databases, sent one to twenty-five requests (addresses in several spellings, percent-encoded or not, the version, other paths, other headers) over one or four connections; responses are compared with the model; non-trivial: two answers with a record and one without",
		Quick: 6000, Thorough: 200000,
	}, genServer, checkX02)
	pbt.Register("X02", "long", pbt.Options{
		Rule:  "the built server on databases of hundreds to thousands of networks, sent thousands of requests (runs of different addresses, of ones without a record, of one again and again, of other paths) over one to six connections, half of them while others send broken requests, reset their connections or do not wait for answers; non-trivial: always",
		Quick: 8, Thorough: 160, NoShrink: true,
	}, func(t *rapid.T) longCase {
		return longCase{B: bigAwdb{V6: rapid.Bool().Draw(t, "v6"), RS: rapid.SampledFrom([]int{0, 24, 28, 32}).Draw(t, "rs"), N: rapid.SampledFrom([]int{100, 3000}).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")},
			Goroutines: rapid.SampledFrom([]int{1, 2, 6}).Draw(t, "connections"), Lookups: rapid.IntRange(3000, 12000).Draw(t, "requests"), Rude: rapid.Bool().Draw(t, "rude")}
	}, checkLongServer)
	pbt.Register("X02", "simple", pbt.Options{
		Rule:  "the built command for one lookup run on random databases with addresses, the version and other texts; non-trivial: a record is printed",
		Quick: 3000, Thorough: 80000,
	}, func(t *rapid.T) simpleCase {
		k := simpleCase{D: genDbCase(t, rapid.Bool().Draw(t, "cover"))}
		o, err := k.D.open()
		if err != nil {
			return k
		}
		probes := o.probes(40)
		for i := rapid.IntRange(1, 3).Draw(t, "nargs"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(t, "argkind") {
			case 0:
				k.Arg = append(k.Arg, genJunk(t))
			case 1:
				k.Arg = append(k.Arg, rapid.SampledFrom([]string{"v", "version", "v1", "V"}).Draw(t, "varg"))
			default:
				s := spellings(probes[rapid.IntRange(0, len(probes)-1).Draw(t, "probe")])
				k.Arg = append(k.Arg, rapid.SampledFrom(s).Draw(t, "spelling"))
			}
		}
		return k
	}, checkSimple)
}

// rude is a client that sends no proper requests or does not wait for the answers.
type rude struct {
	mu   sync.Mutex
	addr string
	ask  []model.Addr
	r    rnd
	held []net.Conn
}

func (d *rude) close() {
	for _, c := range d.held {
		c.Close()
	}
}

func (d *rude) act() {
	d.mu.Lock()
	defer d.mu.Unlock()
	c, err := net.DialTimeout("tcp", d.addr, 10*time.Second)
	if err != nil {
		return // the other client will see it
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	get := func() string {
		return "GET /" + d.ask[d.r.next()%uint64(len(d.ask))].String() + " HTTP/1.1\r\nHost: x\r\n\r\n"
	}
	reset := true
	switch d.r.next() % 9 {
	case 0:
		reset = false
	case 1:
		io.WriteString(c, get()[:12])
		reset = false
	case 2:
		io.WriteString(c, "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\r\n\r\n")
	case 3:
		io.WriteString(c, get())
	case 4:
		for i := 0; i < 200; i++ {
			io.WriteString(c, get())
		}
	case 5:
		io.WriteString(c, "POST /1.2.3.4 HTTP/1.1\r\nHost: x\r\nContent-Length: 1000000\r\n\r\n"+strings.Repeat("x", 5000))
	case 6:
		io.WriteString(c, get()[:20])
		if len(d.held) < 50 {
			d.held = append(d.held, c)
			return
		}
	case 7:
		io.WriteString(c, "GET / HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("x", 1<<17))
	case 8:
		io.WriteString(c, "POST /version HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n")
		reset = false
	}
	if reset {
		c.(*net.TCPConn).SetLinger(0)
	}
	c.Close()
}

func checkLongServer(c *pbt.Ctx, k longCase) error {
	c.NonTrivial()
	d := k.B.awdb()
	if k.B.RS == 0 {
		d = k.B.ipdb()
	}
	o, err := d.open()
	if err != nil {
		return err
	}
	c.Class("%s connections=%d rude=%v", o.kind, k.Goroutines, k.Rude)
	file := filepath.Join(c.Dir(), "db"+o.kind)
	if err := os.WriteFile(file, o.bytes, 0o600); err != nil {
		return pbt.Infra(err)
	}
	s, err := startServer(file)
	if err != nil {
		return err
	}
	defer s.stop()
	asks := o.probes(4000)
	want := make([]string, len(asks)) // "" for none
	for i, a := range asks {
		if rec, _, ok := o.answer(a); ok {
			want[i] = fmt.Sprint(attributes(rec))
		}
	}
	errs := make([]error, k.Goroutines)
	rd := &rude{addr: s.addr, ask: asks, r: rnd(k.B.Seed ^ 0x5555)}
	defer rd.close()
	var wg sync.WaitGroup
	for p := 0; p < k.Goroutines; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := &client{s: s}
			defer cl.close()
			ph := newPhases(k.B.Seed+uint64(p)*77, len(asks), func(i int) bool { return want[i] != "" })
			for n := 0; n < k.Lookups/k.Goroutines; n++ {
				if k.Rude && n%40 == 0 {
					rd.act()
				}
				at, junk := ph.next()
				if at < 0 {
					code, _, err := cl.do("GET", "/"+junk, "")
					if err == nil && code != 404 {
						err = pbt.Violationf("request %d of connection %d, %q: status %d", n, p, junk, code)
					}
					if err != nil {
						errs[p] = err
						return
					}
					continue
				}
				code, body, err := cl.do("GET", "/"+asks[at].String(), "")
				if err != nil {
					errs[p] = err
					return
				}
				var got map[string]string
				if want[at] == "" && code == 404 || want[at] != "" && code == 200 && json.Unmarshal(body, &got) == nil && fmt.Sprint(got) == want[at] {
					continue
				}
				errs[p] = pbt.Violationf("request %d of connection %d, %v: status %d, body %.400q; expected %s (none: 404)", n, p, asks[at], code, body, want[at])
				return
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			select {
			case <-s.done:
				err = pbt.Violationf("%v; the server ended: %.1500s", err, s.stderr.String())
			default:
			}
			return err
		}
	}
	return nil
}
