package checks

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptrace"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/moov-io/dukpt"

	"verif.local/h/core"
	"verif.local/h/model"
	"verif.local/h/rest"
)

func init() {
	core.Register(&core.Check{ID: "C27", Level: "model_checking", Run: runC27,
		Assume: []string{"a signal sent after the last awaited event of a client is delivered after it; the operating system's loopback delivers data in order",
			"inside the process one statement of cmd/server (thorough: two) is held up at a time; other goroutine switches between two client-visible events are the operating system's"},
		Replay: map[string]func(*core.Run, json.RawMessage) error{"config": replayConfig, "schedule": replaySchedule, "bind": replayBind}})
}

// patience is how long anything the server must do may take. It is no timing requirement, only the bound after which
// it is held not to happen.
const patience = 40 * time.Second

// portSeq gives ports for addresses that are not this process's alone, outside the ephemeral range.
var portSeq atomic.Uint32

func ownPort() string {
	for {
		n := portSeq.Add(1)
		if n > 20000 {
			fmt.Fprintln(os.Stderr, "harness: no free port")
			os.Exit(2)
		}
		p := 10000 + (uint32(os.Getpid())*37+n)%9000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return strconv.Itoa(int(p))
		}
	}
}

// hasIPv6 tells whether the loopback has an IPv6 address.
var hasIPv6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})

// srvConf is a configuration of the server process. "-" is a flag or variable not given; %A to %D are addresses of the
// run, followed by the kind of the address: 6 IPv6, l by name, * all interfaces, z all IPv4, Z all IPv6.
type srvConf struct {
	HTTPFlag, HTTPEnv   string
	AdminFlag, AdminEnv string
	LogFlag, LogEnv     string
	Cert, Key           bool
	Space               bool // "-flag value" instead of "-flag=value"
	// Delay: numbers of the statements at which a goroutine of the process is held up
	Delay string `json:",omitempty"`
}

func (c srvConf) String() string {
	return fmt.Sprintf("[-http.addr %s HTTP_BIND_ADDRESS %s -admin.addr %s HTTP_ADMIN_BIND_ADDRESS %s -log.format %s LOG_FORMAT %s certificate %v key %v]",
		c.HTTPFlag, c.HTTPEnv, c.AdminFlag, c.AdminEnv, c.LogFlag, c.LogEnv, c.Cert, c.Key)
}

var addrSeq atomic.Uint32

// loopAddr is an address no other process of this run uses.
func loopAddr() string {
	n := addrSeq.Add(1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+n>>16&0x7F, n>>8&0xFF, n&0xFF, 20000+os.Getpid()%5000)
}

var cert struct {
	once           sync.Once
	dir, crt, key  string
	pool           *x509.CertPool
	err            error
	wrongKey, junk string
}

func makeCert(dir string) error {
	cert.once.Do(func() {
		cert.dir = filepath.Join(dir, fmt.Sprintf("tls-%d", os.Getpid()))
		if cert.err = os.MkdirAll(cert.dir, 0o755); cert.err != nil {
			return
		}
		gen := func(name string) (crt, key string, c *x509.Certificate, err error) {
			k, err := ecdsa.GenerateKey(elliptic.P256(), Fill)
			if err != nil {
				return
			}
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "dukpt"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
				DNSNames: []string{"localhost"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
			der, err := x509.CreateCertificate(Fill, t, t, &k.PublicKey, k)
			if err != nil {
				return
			}
			kd, err := x509.MarshalECPrivateKey(k)
			if err != nil {
				return
			}
			crt, key = filepath.Join(cert.dir, name+".crt"), filepath.Join(cert.dir, name+".key")
			if err = os.WriteFile(crt, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644); err != nil {
				return
			}
			if err = os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), 0o600); err != nil {
				return
			}
			c, err = x509.ParseCertificate(der)
			return
		}
		var c *x509.Certificate
		if cert.crt, cert.key, c, cert.err = gen("a"); cert.err != nil {
			return
		}
		cert.pool = x509.NewCertPool()
		cert.pool.AddCert(c)
		if _, cert.wrongKey, _, cert.err = gen("b"); cert.err != nil {
			return
		}
		cert.junk = filepath.Join(cert.dir, "junk")
		cert.err = os.WriteFile(cert.junk, []byte("not a certificate\n"), 0o644)
	})
	return cert.err
}

// proc is a running server process.
type proc struct {
	cmd    *exec.Cmd
	out    *bytes.Buffer
	errOut *bytes.Buffer
	done   chan struct{} // closed when the process has ended
	state  *os.ProcessState
	tls    bool
	http   string
	admin  string
}

// startServer starts the server; with delay, its build whose goroutines are held up at the points listed there.
func startServer(args, env []string, delay string) (*proc, error) {
	p := &proc{out: &bytes.Buffer{}, errOut: &bytes.Buffer{}, done: make(chan struct{})}
	bin := "dukptserver"
	if delay != "" {
		bin = "dukptserverdelay"
		env = append([]string{"VERIF_DELAY=" + delay}, env...)
	}
	p.cmd = exec.Command(binPath(bin), args...)
	p.cmd.Env = append([]string{"HOME=/nonexistent", "PATH=/nonexistent", "GOMAXPROCS=2"}, env...)
	p.cmd.Dir = "/"
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.errOut
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "harness: dukptserver:", err)
		os.Exit(2)
	}
	go func() {
		p.cmd.Wait()
		p.state = p.cmd.ProcessState
		close(p.done)
	}()
	return p, nil
}

// kill ends the process whatever it does.
func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) how() string {
	e := p.errOut.String()
	if len(e) > 800 {
		e = e[:800]
	}
	return fmt.Sprintf("%s, stderr %q", p.state, e)
}

func (p *proc) waitEnd() error {
	select {
	case <-p.done:
		return nil
	case <-time.After(patience):
		return errors.New("the process does not exit")
	}
}

// cleanExit requires that the process has ended by itself, with status 0.
func (p *proc) cleanExit() error {
	if err := p.waitEnd(); err != nil {
		return err
	}
	if !p.state.Success() {
		return fmt.Errorf("the process ends with %s", p.how())
	}
	return nil
}

func accepts(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// until polls a condition.
func until(f func() bool) bool {
	end := time.Now().Add(patience)
	for d := 200 * time.Microsecond; ; d += d / 4 {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
	}
}

// ready waits until the addresses are served.
func (p *proc) ready(addrs ...string) error {
	for _, a := range addrs {
		if !until(func() bool { return p.ended() || accepts(a) }) {
			return fmt.Errorf("nothing listens on %s", a)
		}
		if p.ended() {
			return fmt.Errorf("the process ended: %s", p.how())
		}
	}
	return nil
}

func (p *proc) dial() (net.Conn, error) {
	c, err := net.DialTimeout("tcp", p.http, patience)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(patience))
	if p.tls {
		t := tls.Client(c, &tls.Config{RootCAs: cert.pool, ServerName: "localhost"})
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		return t, nil
	}
	return c, nil
}

// ServeHTTP hands the request to the process and its answer back.
func (p *proc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	fail := func(err error) { panic(fmt.Sprintf("%s %s: %v", r.Method, r.URL, err)) }
	c, err := p.dial()
	if err != nil {
		fail(err)
	}
	defer c.Close()
	r.Header.Set("Connection", "close")
	var sent bytes.Buffer
	if err := r.Write(&sent); err != nil {
		fail(err)
	}
	// a server may answer before it has read the whole request, so only a missing answer fails
	_, writing := c.Write(sent.Bytes())
	res, err := http.ReadResponse(bufio.NewReader(c), r)
	if err != nil {
		fail(errors.Join(writing, err))
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		fail(err)
	}
	for k, v := range res.Header {
		w.Header()[k] = v
	}
	w.WriteHeader(res.StatusCode)
	w.Write(b)
}

func httpGet(addr, path string) (int, string, error) {
	c, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return 0, "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", path)
	res, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, string(b), err
}

// setting gives the command line part and the environment part of a flag and variable.
func setting(args, env *[]string, flag, fv, vr, ev string, space bool) {
	switch {
	case fv == "-":
	case space:
		*args = append(*args, "-"+flag, fv)
	default:
		*args = append(*args, "-"+flag+"="+fv)
	}
	if ev != "-" {
		*env = append(*env, vr+"="+ev)
	}
}

func effective(fv, ev string) string {
	if ev != "-" && ev != "" {
		return ev
	}
	if fv != "-" {
		return fv
	}
	return ""
}

func (c srvConf) launch() (p *proc, unused []string, err error) {
	ad := map[string]string{}
	for _, v := range []string{c.HTTPFlag, c.HTTPEnv, c.AdminFlag, c.AdminEnv} {
		if strings.HasPrefix(v, "%") && ad[v] == "" {
			switch v[2:] {
			case "":
				ad[v] = loopAddr()
			case "6":
				ad[v] = "[::1]:" + ownPort()
			case "l":
				ad[v] = "localhost:" + ownPort()
			case "*":
				ad[v] = ":" + ownPort()
			case "z":
				ad[v] = "0.0.0.0:" + ownPort()
			case "Z":
				ad[v] = "[::]:" + ownPort()
			}
		}
	}
	sub := func(s string) string {
		if a, ok := ad[s]; ok {
			return a
		}
		return s
	}
	var args, env []string
	hf, he, af, ae := sub(c.HTTPFlag), sub(c.HTTPEnv), sub(c.AdminFlag), sub(c.AdminEnv)
	setting(&args, &env, "http.addr", hf, "HTTP_BIND_ADDRESS", he, c.Space)
	setting(&args, &env, "admin.addr", af, "HTTP_ADMIN_BIND_ADDRESS", ae, c.Space)
	setting(&args, &env, "log.format", c.LogFlag, "LOG_FORMAT", c.LogEnv, c.Space)
	if c.Cert {
		env = append(env, "HTTPS_CERT_FILE="+cert.crt)
	}
	if c.Key {
		env = append(env, "HTTPS_KEY_FILE="+cert.key)
	}
	p, err = startServer(args, env, c.Delay)
	p.tls = c.Cert && c.Key
	p.http, p.admin = effective(hf, he), effective(af, ae)
	for _, a := range ad {
		if a != p.http && a != p.admin {
			unused = append(unused, a)
		}
	}
	return
}

// confOps is a short history over every route.
func confOps(sp *model.Spec) []model.Op {
	o := []model.Op{{Fn: "list"}, opCreate(mD0), opCreate(mA192), opCreate(mD0b)}
	for _, b := range []struct {
		ik, alg string
	}{{ikOf(sp, mD0), "des"}, {ikOf(sp, mA192), "aes"}} {
		for _, x := range opsFor(b.ik, b.alg) {
			if x.Fn != "delete" {
				o = append(o, x)
			}
		}
	}
	return append(o, model.Op{Fn: "encdata", IK: ikOf(sp, mA192), A: strings.Repeat("0123456789abcdef", 20000), B: "response"}, model.Op{Fn: "get", IK: absentIK}, model.Op{Fn: "list"})
}

func judgeConfig(sp *model.Spec, c srvConf, sig syscall.Signal) error {
	p, unused, err := c.launch()
	if err != nil {
		return err
	}
	defer p.kill()
	if err := p.ready(p.http); err != nil {
		return err
	}
	if p.admin != "" {
		if err := p.ready(p.admin); err != nil {
			return fmt.Errorf("admin: %v", err)
		}
	} else if a := p.otherListener(); a != "" {
		p.admin = a
	}
	if p.admin != "" {
		if code, body, err := httpGet(p.admin, "/version"); err != nil || code != 200 || strings.TrimSpace(body) != dukpt.Version {
			return fmt.Errorf("GET /version on the admin address: %d %q %v, want %q", code, body, err, dukpt.Version)
		}
	}
	for _, a := range unused {
		if accepts(a) {
			return fmt.Errorf("an address that was overridden is served")
		}
	}
	s := model.NewState()
	for _, op := range confOps(sp) {
		exp := sp.Step(s, op)
		res, a := rest.Exec(p, op)
		if wantsError(exp) {
			if a.Panic != "" || res.Kind != "error" {
				return fmt.Errorf("%s: must fail, answered %s", op, a)
			}
			continue
		}
		if err := exp.Check(res); err != nil {
			return fmt.Errorf("%s: %v", op, err)
		}
	}
	// header fields as large as browsers and gateways send them
	for _, op := range []model.Op{{Fn: "list"}, {Fn: "next", IK: ikOf(sp, mD0)}} {
		req := rest.Request(op)
		req.Header.Set("Cookie", "session="+strings.Repeat("c", 7000))
		req.Header.Set("Authorization", "Bearer "+strings.Repeat("t", 7000))
		a := rest.Do(p, req)
		if err := sp.Step(s, op).Check(rest.Res(op, a)); err != nil {
			return fmt.Errorf("%s with 14 KB of header fields: %v, answered %s", op, err, a)
		}
	}
	if p.ended() {
		return fmt.Errorf("the process ended by itself: %s", p.how())
	}
	p.cmd.Process.Signal(sig)
	if err := p.cleanExit(); err != nil {
		return fmt.Errorf("after %s: %v", sig, err)
	}
	for _, a := range []string{p.http, p.admin} {
		if a != "" && accepts(a) {
			return fmt.Errorf("%s still accepts connections", a)
		}
	}
	return judgeLog(p.out.String(), effective(c.LogFlag, c.LogEnv))
}

// judgeLog requires lines of the configured format.
func judgeLog(out, format string) error {
	ls := strings.Split(strings.TrimSpace(out), "\n")
	if strings.TrimSpace(out) == "" {
		return errors.New("nothing is logged")
	}
	for _, l := range ls {
		var m map[string]any
		isJSON := json.Unmarshal([]byte(l), &m) == nil
		if isJSON != (format == "json") {
			return fmt.Errorf("log format %q, but a line is %q", format, l)
		}
	}
	return nil
}

// otherListener finds the address the process listens on besides the HTTP address, in the kernel's tables of this
// child.
func (p *proc) otherListener() string {
	dir := fmt.Sprintf("/proc/%d", p.cmd.Process.Pid)
	ino := map[string]bool{}
	fds, _ := os.ReadDir(dir + "/fd")
	for _, f := range fds {
		if t, err := os.Readlink(dir + "/fd/" + f.Name()); err == nil && strings.HasPrefix(t, "socket:[") {
			ino[strings.TrimSuffix(strings.TrimPrefix(t, "socket:["), "]")] = true
		}
	}
	b, _ := os.ReadFile(dir + "/net/tcp")
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 10 || f[3] != "0A" || !ino[f[9]] {
			continue
		}
		h, port, ok := strings.Cut(f[1], ":")
		ip, err1 := strconv.ParseUint(h, 16, 32)
		pn, err2 := strconv.ParseUint(port, 16, 16)
		if !ok || err1 != nil || err2 != nil {
			continue
		}
		a := fmt.Sprintf("%d.%d.%d.%d:%d", byte(ip), byte(ip>>8), byte(ip>>16), byte(ip>>24), pn)
		if a != p.http {
			return a
		}
	}
	return ""
}

type confCase struct {
	Conf srvConf
	Sig  int
}

func replayConfig(r *core.Run, data json.RawMessage) error {
	var c confCase
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	if err := makeCert(r.OutDir); err != nil {
		return err
	}
	defer os.RemoveAll(cert.dir)
	return judgeConfig(model.NewSpec(), c.Conf, syscall.Signal(c.Sig))
}

// step of a schedule: K idle connection; T a part of the headers sent; H headers sent and the handler waiting for the body; P a part of the body sent;
// F the rest sent and the response read; S signal; W time passes; N an attempt to open a new connection.
type step struct {
	What byte
	N    int `json:",omitempty"` // request, or signal number
}

func (s step) String() string {
	switch s.What {
	case 'S':
		return syscall.Signal(s.N).String()
	case 'K', 'W', 'N':
		return map[byte]string{'K': "idle connection", 'W': "wait", 'N': "new connection"}[s.What]
	}
	return fmt.Sprintf("%c%d", s.What, s.N)
}

// schedule is an interleaving of the steps of some requests and signals.
type schedule struct {
	TLS   bool
	Reqs  []int // indices into flightOps
	Steps []step
	Cut   int // how much of the body goes with the headers or the part: 0 nothing, 1 one byte, 2 half, 3 all but the last byte
	Wait  int `json:",omitempty"` // seconds
	// Warm: the connection of a request served another one before. H2: the requests share an HTTP/2 connection, if the
	// server speaks that.
	Warm, H2 bool   `json:",omitempty"`
	Delay    string `json:",omitempty"`
}

func (s schedule) String() string {
	var o []string
	for _, x := range s.Steps {
		o = append(o, x.String())
	}
	how := ""
	if s.Warm {
		how += " warm"
	}
	if s.H2 {
		how += " h2"
	}
	if s.Delay != "" {
		how += " held up at"
		for _, d := range strings.Split(s.Delay, ",") {
			how += fmt.Sprintf(" [%s]", delayPoint(d))
		}
	}
	return fmt.Sprintf("tls=%v%s requests=%v cut=%d wait=%ds: %s", s.TLS, how, s.Reqs, s.Cut, s.Wait, strings.Join(o, ", "))
}

// flightOps are the requests that can be in progress; the machines exist.
func flightOps(sp *model.Spec) []model.Op {
	ik, ika := ikOf(sp, mD0), ikOf(sp, mA192)
	return []model.Op{opCreate(mA0), {Fn: "encpin", IK: ik, A: "1234", B: "4012345678909", C: "ISO-0"},
		{Fn: "decdata", IK: ika, A: "00112233445566778899aabbccddeeff", B: "request"},
		{Fn: "mac", IK: ika, A: "4012345678909D987", B: "response", C: "hmac"},
		{Fn: "encdata", IK: ik, A: "4012345678909D98", B: "response", C: "0102030405060708"},
		{Fn: "decpin", IK: ik, A: "1b9c1845eb993a7a", B: "4012345678909", C: "ISO-2"}, opCreate(mD0)}
}

// flight is one request in progress.
type flight struct {
	c    net.Conn
	br   *bufio.Reader
	req  *http.Request
	op   model.Op
	head string // what is left of the headers
	rest []byte
	// over HTTP/2
	body *io.PipeWriter
	done chan h2Answer
}

type h2Answer struct {
	res *http.Response
	err error
}

func (f *flight) close() {
	if f.body != nil {
		f.body.CloseWithError(errors.New("the client leaves"))
		return
	}
	f.c.Close()
}

func (f *flight) write(b []byte) (err error) {
	if f.body == nil {
		_, err = f.c.Write(b)
		return err
	}
	if len(b) == 0 {
		return nil
	}
	wrote := make(chan error, 1)
	go func() {
		_, err := f.body.Write(b)
		wrote <- err
	}()
	select {
	case err = <-wrote:
	case a := <-f.done:
		if a.err == nil {
			a.res.Body.Close()
			a.err = fmt.Errorf("answered %d before the body was there", a.res.StatusCode)
		}
		f.done <- a
		err = a.err
	case <-time.After(patience):
		err = errors.New("the body is not taken")
	}
	return
}

// answer reads the response.
func (f *flight) answer() (res *http.Response, b []byte, err error) {
	if f.body == nil {
		f.c.SetDeadline(time.Now().Add(patience))
		res, err = http.ReadResponse(f.br, f.req)
	} else {
		f.body.Close()
		select {
		case a := <-f.done:
			res, err = a.res, a.err
		case <-time.After(patience):
			err = errors.New("timeout")
		}
	}
	if err != nil {
		return nil, nil, fmt.Errorf("a request in progress gets no response: %v", err)
	}
	b, err = io.ReadAll(res.Body)
	res.Body.Close()
	if err != nil {
		return nil, nil, fmt.Errorf("a request in progress gets half a response: %v", err)
	}
	return
}

// beginH2 starts a request over the transport and returns when the server asks for its body.
func beginH2(p *proc, tr *http.Transport, op model.Op) (*flight, error) {
	req := rest.Request(op)
	body, _ := io.ReadAll(req.Body)
	pr, pw := io.Pipe()
	cont := make(chan bool)
	var once sync.Once
	ctx := httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{Got100Continue: func() { once.Do(func() { close(cont) }) }})
	h, err := http.NewRequestWithContext(ctx, req.Method, "https://"+p.http+req.RequestURI, pr)
	if err != nil {
		return nil, err
	}
	h.ContentLength = int64(len(body))
	h.Header.Set("Expect", "100-continue")
	h.Header.Set("Content-Type", "application/json")
	f := &flight{op: op, req: h, rest: body, body: pw, done: make(chan h2Answer, 1)}
	go func() {
		res, err := tr.RoundTrip(h)
		f.done <- h2Answer{res, err}
	}()
	select {
	case <-cont:
		return f, nil
	case a := <-f.done:
		if a.err == nil {
			a.res.Body.Close()
			a.err = fmt.Errorf("answered %d without being asked for the body", a.res.StatusCode)
		}
		return nil, a.err
	case <-time.After(patience):
		f.close()
		return nil, errors.New("not told to continue")
	}
}

// warm serves a whole request on a connection.
func warm(c net.Conn, br *bufio.Reader) error {
	fmt.Fprintf(c, "GET /machines HTTP/1.1\r\nHost: localhost\r\n\r\n")
	res, err := http.ReadResponse(br, nil)
	if err != nil {
		return err
	}
	b, err := io.ReadAll(res.Body)
	if err != nil || res.StatusCode != 200 {
		return fmt.Errorf("%d %s %v", res.StatusCode, b, err)
	}
	return nil
}

// begin opens the connection of a request.
func begin(p *proc, op model.Op) (*flight, error) {
	c, err := p.dial()
	if err != nil {
		return nil, err
	}
	req := rest.Request(op)
	body, _ := io.ReadAll(req.Body)
	return &flight{c: c, br: bufio.NewReader(c), req: req, op: op, rest: body,
		head: fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/json\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", req.Method, req.RequestURI, len(body))}, nil
}

func cutAt(n, how int) int {
	switch how {
	case 1:
		return 1
	case 2:
		return n / 2
	case 3:
		return n - 1
	}
	return 0
}

func judgeSchedule(sp *model.Spec, sc schedule) error {
	conf := srvConf{HTTPFlag: "%A", HTTPEnv: "-", AdminFlag: "%B", AdminEnv: "-", LogFlag: "-", LogEnv: "-", Cert: sc.TLS, Key: sc.TLS, Delay: sc.Delay}
	p, _, err := conf.launch()
	if err != nil {
		return err
	}
	defer p.kill()
	if err := p.ready(p.http, p.admin); err != nil {
		return err
	}
	s := model.NewState()
	for _, b := range []model.Op{opCreate(mD0), opCreate(mA192)} {
		exp := sp.Step(s, b)
		if res, _ := rest.Exec(p, b); exp.Check(res) != nil {
			return fmt.Errorf("%s: %v", b, exp.Check(res))
		}
	}
	ops := flightOps(sp)
	fl := map[int]*flight{}
	signalled := false
	open := 0
	var late []syscall.Signal // sent again with nothing in progress, when the process may be past listening to signals
	defer func() {
		for _, f := range fl {
			f.close()
		}
	}()
	tr := &http.Transport{TLSClientConfig: &tls.Config{RootCAs: cert.pool, ServerName: "localhost"}, ForceAttemptHTTP2: true, ExpectContinueTimeout: time.Hour, TLSHandshakeTimeout: patience}
	defer tr.CloseIdleConnections()
	var idle []net.Conn
	defer func() {
		for _, c := range idle {
			c.Close()
		}
	}()
	for i, st := range sc.Steps {
		bad := func(format string, a ...any) error {
			end := ""
			if p.ended() {
				end = "; the process has ended: " + p.how() + ", stdout " + p.out.String()
			}
			return fmt.Errorf("step %d (%s): %s%s", i, st, fmt.Sprintf(format, a...), end)
		}
		switch st.What {
		case 'W':
			time.Sleep(time.Duration(sc.Wait) * time.Second)
		case 'K':
			c, err := p.dial()
			if err != nil {
				return bad("%v", err)
			}
			idle = append(idle, c)
			if err := warm(c, bufio.NewReader(c)); err != nil {
				return bad("%v", err)
			}
		case 'N':
			if c, err := net.DialTimeout("tcp", p.http, patience); err == nil {
				c.Close()
				if signalled {
					return bad("a connection is accepted after the signal")
				}
			} else if !signalled {
				return bad("%v", err)
			}
		case 'T':
			f, err := begin(p, ops[sc.Reqs[st.N]])
			if err != nil {
				return bad("%v", err)
			}
			fl[st.N] = f
			n := cutAt(len(f.head), sc.Cut)
			io.WriteString(f.c, f.head[:n])
			f.head = f.head[n:]
		case 'H':
			if signalled {
				if accepts(p.http) {
					return bad("a connection is accepted after the signal")
				}
				continue
			}
			f, err := fl[st.N], error(nil)
			if f == nil && sc.H2 {
				if f, err = beginH2(p, tr, ops[sc.Reqs[st.N]]); err != nil {
					return bad("%v", err)
				}
				fl[st.N] = f
				open++
				continue
			}
			if f == nil {
				if f, err = begin(p, ops[sc.Reqs[st.N]]); err != nil {
					return bad("%v", err)
				}
				fl[st.N] = f
				if sc.Warm {
					if err := warm(f.c, f.br); err != nil {
						return bad("%v", err)
					}
				}
			}
			f.c.SetDeadline(time.Now().Add(patience))
			io.WriteString(f.c, f.head)
			l, err := f.br.ReadString('\n')
			if err != nil || !strings.HasPrefix(l, "HTTP/1.1 100") {
				return bad("%s: not told to continue: %q %v", f.op, l, err)
			}
			if l, err = f.br.ReadString('\n'); err != nil || strings.TrimSpace(l) != "" {
				return bad("%s: %q %v", f.op, l, err)
			}
			open++
		case 'P':
			if f := fl[st.N]; f != nil {
				n := cutAt(len(f.rest), sc.Cut)
				if err := f.write(f.rest[:n]); err != nil {
					return bad("%s: %v", f.op, err)
				}
				f.rest = f.rest[n:]
			}
		case 'F':
			f := fl[st.N]
			if f == nil {
				continue
			}
			if err := f.write(f.rest); err != nil {
				return bad("%s: a request in progress is cut off: %v", f.op, err)
			}
			res, b, err := f.answer()
			if err != nil {
				return bad("%s: %v", f.op, err)
			}
			f.close()
			exp := sp.Step(s, f.op)
			a := rest.Answer{Code: res.StatusCode, Body: b, Header: res.Header}
			r := rest.Res(f.op, a)
			if err := exp.Check(r); err != nil {
				return bad("%s: %v", f.op, err)
			}
			open--
		case 'S':
			if signalled && p.ended() {
				continue
			}
			p.cmd.Process.Signal(syscall.Signal(st.N))
			if signalled && open == 0 {
				late = append(late, syscall.Signal(st.N))
			}
			if !signalled {
				signalled = true
				if !until(func() bool { return !accepts(p.http) }) {
					return bad("connections are still accepted")
				}
			}
		}
		if !signalled && p.ended() {
			return bad("the process ended by itself: %s", p.how())
		}
	}
	if err := p.waitEnd(); err != nil {
		return err
	}
	if ws, ok := p.state.Sys().(syscall.WaitStatus); !ok || !ws.Signaled() || !slices.Contains(late, ws.Signal()) {
		if err := p.cleanExit(); err != nil {
			return err
		}
	}
	if accepts(p.http) || accepts(p.admin) {
		return errors.New("an address is still served")
	}
	return nil
}

func replaySchedule(r *core.Run, data json.RawMessage) error {
	var s schedule
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	if err := makeCert(r.OutDir); err != nil {
		return err
	}
	defer os.RemoveAll(cert.dir)
	return judgeSchedule(model.NewSpec(), s)
}

// interleave emits every merge of the threads.
func interleave(ts [][]step, emit func([]step)) {
	var cur []step
	pos := make([]int, len(ts))
	var rec func()
	rec = func() {
		done := true
		for i := range ts {
			if pos[i] < len(ts[i]) {
				done = false
				cur = append(cur, ts[i][pos[i]])
				pos[i]++
				rec()
				pos[i]--
				cur = cur[:len(cur)-1]
			}
		}
		if done {
			emit(append([]step{}, cur...))
		}
	}
	rec()
}

// bindCase is an address that cannot be served.
type bindCase struct {
	HTTPTaken bool   `json:",omitempty"`
	Addr      string `json:",omitempty"` // an unusable HTTP address
	Cert, Key string `json:",omitempty"` // certificate and key: ok, wrong, junk, missing
	Delay     string `json:",omitempty"`
}

func judgeBind(b bindCase) error {
	addr := loopAddr()
	var ln net.Listener
	if b.HTTPTaken {
		var err error
		if ln, err = net.Listen("tcp", addr); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(2)
		}
		defer ln.Close()
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	}
	if b.Addr != "" {
		addr = b.Addr
	}
	env := []string{}
	file := func(s string, ok string) string {
		return map[string]string{"ok": ok, "wrong": cert.wrongKey, "junk": cert.junk, "missing": filepath.Join(cert.dir, "none")}[s]
	}
	if b.Cert != "" {
		env = append(env, "HTTPS_CERT_FILE="+file(b.Cert, cert.crt), "HTTPS_KEY_FILE="+file(b.Key, cert.key))
	}
	p, err := startServer([]string{"-http.addr=" + addr, "-admin.addr=" + loopAddr()}, env, b.Delay)
	if err != nil {
		return err
	}
	defer p.kill()
	return p.waitEnd()
}

func replayBind(r *core.Run, data json.RawMessage) error {
	var b bindCase
	if err := json.Unmarshal(data, &b); err != nil {
		return err
	}
	if err := makeCert(r.OutDir); err != nil {
		return err
	}
	defer os.RemoveAll(cert.dir)
	return judgeBind(b)
}

func configs(thorough bool) (o []confCase) {
	add := func(c srvConf) {
		n := len(o)
		c.Space = n%3 == 1
		o = append(o, confCase{Conf: c, Sig: int([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[n%2])})
	}
	https := [][2]string{{"%A", "-"}, {"%A", ""}, {"%A", "%B"}, {"-", "%B"}}
	admins := [][2]string{{"%C", "-"}, {"%C", ""}, {"%C", "%D"}, {"-", "%D"}, {"-", "-"}, {"-", ""}}
	logs := []string{"-", "", "json", "plain"}
	tlss := [][2]bool{{false, false}, {true, true}, {true, false}, {false, true}}
	kinds := []string{"l", "*", "z"}
	if hasIPv6() {
		kinds = append(kinds, "6", "Z")
	}
	for _, k := range kinds {
		for i, t := range tlss[:2] {
			for j, a := range [][2]string{{"%C", "-"}, {"%C" + k, "-"}, {"-", "%C" + k}} {
				add(srvConf{HTTPFlag: "%A" + k, HTTPEnv: "-", AdminFlag: a[0], AdminEnv: a[1], LogFlag: logs[2*i], LogEnv: "-", Cert: t[0], Key: t[1]})
				add(srvConf{HTTPFlag: "%A", HTTPEnv: "%B" + k, AdminFlag: a[0], AdminEnv: a[1], LogFlag: "-", LogEnv: logs[2+j%2], Cert: t[0], Key: t[1]})
				add(srvConf{HTTPFlag: "%A" + k, HTTPEnv: "%B", AdminFlag: a[1], AdminEnv: a[0], LogFlag: "-", LogEnv: "-", Cert: t[0], Key: t[1]})
			}
		}
	}
	for _, h := range https {
		for _, a := range admins {
			for _, t := range tlss {
				for i, lf := range logs {
					for j, le := range logs {
						if !thorough && (i+j)%2 == 1 && (h[0] == "-" || a[0] == "-") {
							continue
						}
						add(srvConf{HTTPFlag: h[0], HTTPEnv: h[1], AdminFlag: a[0], AdminEnv: a[1], LogFlag: lf, LogEnv: le, Cert: t[0], Key: t[1]})
					}
				}
			}
		}
	}
	return
}

var stopSignals = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}

func schedules(thorough bool) (o []schedule) {
	H := func(n int) step { return step{'H', n} }
	P := func(n int) step { return step{'P', n} }
	F := func(n int) step { return step{'F', n} }
	S := func(s syscall.Signal) step { return step{'S', int(s)} }
	for _, t := range []bool{false, true} {
		for _, s := range stopSignals {
			// every request alone, everywhere the signal can fall, for every cut
			for r := 0; r < 7; r++ {
				for cut := 0; cut < 4; cut++ {
					interleave([][]step{{H(0), P(0), F(0)}, {S(s)}}, func(st []step) {
						o = append(o, schedule{TLS: t, Reqs: []int{r}, Steps: st, Cut: cut})
					})
				}
			}
			// the same on a connection used before, and over HTTP/2
			for r := 0; r < 7; r++ {
				for cut := 0; cut < 4; cut += 2 {
					interleave([][]step{{H(0), P(0), F(0)}, {S(s)}}, func(st []step) {
						o = append(o, schedule{TLS: t, Reqs: []int{r}, Steps: st, Cut: cut, Warm: true})
						if t {
							o = append(o, schedule{TLS: t, Reqs: []int{r}, Steps: st, Cut: cut, H2: true})
						}
					})
				}
			}
			if t {
				interleave([][]step{{H(0), P(0), F(0)}, {H(1), P(1), F(1)}, {S(s)}}, func(st []step) {
					o = append(o, schedule{TLS: t, Reqs: []int{0, 5}, Steps: st, Cut: 2, H2: true})
				})
			}
			// two requests, a new connection and an idle one
			pairs := [][]int{{1, 3}, {0, 6}}
			if thorough {
				pairs = nil
				for a := 0; a < 6; a++ {
					for b := 0; b < 6; b++ {
						pairs = append(pairs, []int{a, b})
					}
				}
			}
			for _, pr := range pairs {
				interleave([][]step{{H(0), P(0), F(0)}, {H(1), P(1), F(1)}, {S(s)}}, func(st []step) {
					o = append(o, schedule{TLS: t, Reqs: pr, Steps: st, Cut: 2})
				})
			}
			interleave([][]step{{H(0), F(0)}, {step{'K', 0}}, {step{'N', 0}}, {S(s)}}, func(st []step) {
				k, sg := -1, -1
				for i, x := range st {
					switch x.What {
					case 'K':
						k = i
					case 'S':
						sg = i
					}
				}
				if k < sg { // a kept connection is made before the signal
					o = append(o, schedule{TLS: t, Reqs: []int{4}, Steps: st})
				}
			})
			o = append(o, schedule{TLS: t, Steps: []step{S(s)}})
			// many requests at once
			var many []step
			reqs := []int{}
			for i := 0; i < 60; i++ {
				many = append(many, H(i))
				reqs = append(reqs, 1+i%5)
			}
			many = append(many, S(s))
			for i := 59; i >= 0; i-- {
				many = append(many, F(i))
			}
			o = append(o, schedule{TLS: t, Reqs: reqs, Steps: many})
			// two signals
			for _, s2 := range stopSignals {
				interleave([][]step{{H(0), F(0)}, {H(1), F(1)}, {S(s), S(s2)}}, func(st []step) {
					o = append(o, schedule{TLS: t, Reqs: []int{2, 5}, Steps: st})
				})
			}
			if thorough {
				interleave([][]step{{H(0), F(0)}, {H(1), F(1)}, {H(2), F(2)}, {S(s)}}, func(st []step) {
					o = append(o, schedule{TLS: t, Reqs: []int{2, 5, 0}, Steps: st})
				})
			}
		}
	}
	return
}

func slowSchedules(thorough bool) (o []schedule) {
	waits := []int{3, 12, 22}
	if thorough {
		waits = []int{1, 3, 7, 12, 17, 22, 25}
	}
	for _, t := range []bool{false, true} {
		for _, s := range stopSignals {
			for _, w := range waits {
				for cut := 0; cut < 4; cut++ { // headers and body come late; the signal after that
					o = append(o, schedule{TLS: t, Reqs: []int{1, 0}, Wait: w, Cut: cut, Steps: []step{{'T', 0}, {'H', 1}, {'P', 1}, {'W', 0}, {'H', 0}, {'F', 1}, {'S', int(s)}, {'P', 0}, {'F', 0}}})
				}
				for _, h2 := range []bool{false, true} {
					if t || !h2 {
						o = append(o, schedule{TLS: t, H2: h2, Reqs: []int{1, 0}, Wait: w, Cut: 2, Steps: []step{{'H', 0}, {'H', 1}, {'P', 1}, {'S', int(s)}, {'W', 0}, {'F', 1}, {'F', 0}}})
					}
				}
			}
		}
	}
	return
}

// delayPoints are the statements of the server at which a goroutine can be held up.
var delayPoints = sync.OnceValue(func() []string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "out", "delay", "points"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	return strings.Split(strings.TrimSpace(string(b)), "\n")
})

func delayPoint(s string) string {
	if n, err := strconv.Atoi(s); err == nil && n < len(delayPoints()) {
		return delayPoints()[n]
	}
	return "statement " + s
}

// delayed are the schedules and unusable addresses tried with a goroutine of the server held up at every statement
// (thorough: at every two statements).
func delayed(thorough bool) (sc []schedule, bs []bindCase) {
	add := func(d string) {
		for _, t := range []bool{false, true} {
			for _, s := range stopSignals {
				S := step{'S', int(s)}
				sc = append(sc, schedule{TLS: t, Delay: d, Reqs: []int{1}, Cut: 2, Steps: []step{{'H', 0}, {'P', 0}, S, {'F', 0}}},
					schedule{TLS: t, Delay: d, Steps: []step{S}})
			}
		}
		sc = append(sc, schedule{Delay: d, Reqs: []int{2, 0}, Cut: 2, Steps: []step{{'K', 0}, {'H', 0}, {'H', 1}, {'F', 1}, {'S', int(syscall.SIGTERM)}, {'S', int(syscall.SIGINT)}, {'F', 0}}})
		bs = append(bs, bindCase{HTTPTaken: true, Delay: d}, bindCase{Cert: "ok", Key: "missing", Delay: d})
	}
	n := len(delayPoints())
	for i := 0; i < n; i++ {
		add(strconv.Itoa(i))
		for j := 0; thorough && j < i; j++ {
			add(fmt.Sprintf("%d,%d", j, i))
		}
	}
	return
}

func runC27(r *core.Run) {
	r.Rule("states and transitions are those of the protocol between clients, operator and server process: every interleaving of the steps of the stated requests (headers, part of the body, rest and response), " +
		"signals, idle and new connections, executed on a process of its own; besides, one process per configuration of flags, environment and certificates, and some schedules with a goroutine of the process held up at every statement of cmd/server")
	if _, err := os.Stat(binPath("dukptserver")); err != nil {
		fmt.Fprintln(os.Stderr, "harness: no binary:", err)
		os.Exit(2)
	}
	if err := makeCert(r.OutDir); err != nil {
		fmt.Fprintln(os.Stderr, "harness: certificate:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(cert.dir)
	specs := make([]*model.Spec, r.Workers)
	for i := range specs {
		specs[i] = model.NewSpec()
	}
	var bg sync.WaitGroup
	runSched := func(sp *model.Spec, s schedule) {
		err := judgeSchedule(sp, s)
		r.Eval(1)
		r.Distinct(core.Hash([]byte(s.String())))
		if err != nil {
			r.Violate("schedule", "schedule:"+s.String(), s.String()+": "+err.Error(), s)
		}
	}
	runBind := func(b bindCase) {
		err := judgeBind(b)
		r.Eval(1)
		r.Distinct(core.Hash([]byte(fmt.Sprintf("bind %v", b))))
		if err != nil {
			r.Violate("bind", fmt.Sprintf("bind:%v", b), fmt.Sprintf("HTTP address that cannot be served %+v: %v", b, err), b)
		}
	}
	for _, s := range slowSchedules(r.Thorough) { // they mostly sleep
		bg.Add(1)
		go func() {
			defer bg.Done()
			runSched(model.NewSpec(), s)
		}()
	}
	dsc, dbs := delayed(r.Thorough)
	r.Set("statements_held_up", int64(len(delayPoints())))
	r.Set("schedules_with_a_goroutine_held_up", int64(len(dsc)+len(dbs)))
	next := make(chan func(sp *model.Spec))
	bg.Add(25)
	for w := 0; w < 24; w++ { // these mostly sleep, too
		go func() {
			defer bg.Done()
			sp := model.NewSpec()
			for f := range next {
				f(sp)
			}
		}()
	}
	go func() {
		defer bg.Done()
		defer close(next)
		for _, s := range dsc {
			if r.Stopped() {
				return
			}
			next <- func(sp *model.Spec) { runSched(sp, s) }
		}
		for _, b := range dbs {
			if r.Stopped() {
				return
			}
			next <- func(*model.Spec) { runBind(b) }
		}
	}()
	scs := schedules(r.Thorough)
	states, trans := map[string]bool{}, map[string]bool{}
	for _, s := range append(slowSchedules(r.Thorough), scs...) {
		k := fmt.Sprintf("%v %v %v %v %d:", s.TLS, s.Warm, s.H2, s.Reqs, s.Cut)
		states[k] = true
		for _, x := range s.Steps {
			n := protoNext(k, x)
			trans[k+">"+x.String()] = true
			states[n] = true
			k = n
		}
	}
	r.Set("states", int64(len(states)))
	r.Set("transitions", int64(len(trans)))
	r.Parallel(len(scs), func(w, i int) {
		if i%301 == 3 {
			r.Sample(scs[i].String())
		}
		r.Busy(w, "schedule", scs[i].String(), scs[i])
		runSched(specs[w], scs[i])
	})
	r.Set("schedules", int64(len(scs)+len(slowSchedules(r.Thorough))))
	cs := configs(r.Thorough)
	r.Parallel(len(cs), func(w, i int) {
		c := cs[i]
		if i%157 == 3 {
			r.Sample(c.Conf.String())
		}
		r.Busy(w, "config", c.Conf.String(), c)
		err := judgeConfig(specs[w], c.Conf, syscall.Signal(c.Sig))
		if err != nil { // somebody else may have taken a port in between
			err = judgeConfig(specs[w], c.Conf, syscall.Signal(c.Sig))
		}
		r.Eval(1)
		r.Distinct(core.Hash([]byte(c.Conf.String())))
		if err != nil {
			r.Violate("config", "config:"+c.Conf.String(), c.Conf.String()+": "+err.Error(), c)
		}
	})
	r.Set("configurations", int64(len(cs)))
	bs := []bindCase{{HTTPTaken: true}, {HTTPTaken: true, Cert: "ok", Key: "ok"}, {Addr: "127.0.0.1:99999"}, {Addr: "192.0.2.1:20001"}, {Addr: "nonsense"},
		{Cert: "missing", Key: "ok"}, {Cert: "ok", Key: "missing"}, {Cert: "junk", Key: "ok"}, {Cert: "ok", Key: "junk"}, {Cert: "ok", Key: "wrong"}}
	r.Parallel(len(bs), func(w, i int) {
		r.Busy(w, "bind", fmt.Sprint(bs[i]), bs[i])
		runBind(bs[i])
	})
	bg.Wait()
}

// protoNext is the state of the protocol after a step: how far every request is, whether a signal was sent.
func protoNext(k string, x step) string {
	head, rest, _ := strings.Cut(k, ":")
	p := strings.Fields(rest)
	p = append(p, x.String())
	sortStrings(p)
	return head + ":" + strings.Join(p, " ")
}
