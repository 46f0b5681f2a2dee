// Package rest turns service operations into HTTP requests on the handler of the real server and reads the answers
// back, so that the same specification (package model) judges both.
package rest

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"
	"time"
	"unicode/utf16"

	"github.com/moov-io/dukpt/pkg/server"

	"verif.local/h/model"
)

// Answer is one complete HTTP response.
type Answer struct {
	Code   int
	Body   []byte
	Header http.Header
	Panic  string
	Writes int // WriteHeader calls beyond the first
}

func (a Answer) String() string {
	if a.Panic != "" {
		return "panic: " + a.Panic
	}
	return fmt.Sprintf("%d %s", a.Code, strings.TrimSpace(string(a.Body)))
}

// wire writes a response as the connection of an HTTP server takes it: once a length is announced, nothing beyond it goes
// out, and an answer that ends before it is cut off.
type wire struct {
	*httptest.ResponseRecorder
	begun      bool
	n, length  int64 // length: announced, or -1
	head, bare bool  // no body goes out: HEAD, 204, 304
	point      func()
}

func (w *wire) begin(code int) {
	if w.begun || code >= 100 && code < 200 {
		return
	}
	w.begun = true
	w.bare = code == 204 || code == 304
	w.length = -1
	if v, err := strconv.ParseInt(w.Header().Get("Content-Length"), 10, 64); err == nil && v >= 0 {
		w.length = v
	}
}

func (w *wire) WriteHeader(code int) {
	w.point()
	w.begin(code)
	w.ResponseRecorder.WriteHeader(code)
}

func (w *wire) Write(b []byte) (int, error) {
	w.point()
	w.begin(200)
	if w.bare {
		return 0, http.ErrBodyNotAllowed
	}
	if w.length >= 0 && w.n+int64(len(b)) > w.length {
		return 0, http.ErrContentLength
	}
	w.n += int64(len(b))
	if w.head {
		return len(b), nil
	}
	return w.ResponseRecorder.Write(b)
}

func (w *wire) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *wire) Flush() {
	w.begin(200)
	w.ResponseRecorder.Flush()
}

// slowBody calls a function before the first reads, of which the first gets half of the body at most.
type slowBody struct {
	io.ReadCloser
	n, size int
	point   func()
}

func (b *slowBody) Read(p []byte) (int, error) {
	b.n++
	if b.n <= 2 {
		b.point()
	}
	if half := (b.size + 1) / 2; b.n == 1 && half > 0 && len(p) > half {
		p = p[:half]
	}
	return b.ReadCloser.Read(p)
}

// Do serves one request.
func Do(h http.Handler, req *http.Request) (a Answer) { return DoStepwise(h, req, func() {}) }

// DoStepwise calls point before reads of the body and before writes of the answer.
func DoStepwise(h http.Handler, req *http.Request, point func()) (a Answer) {
	w := &wire{ResponseRecorder: httptest.NewRecorder(), length: -1, head: req.Method == http.MethodHead, point: point}
	if req.Body != nil && req.Body != http.NoBody {
		req.Body = &slowBody{ReadCloser: req.Body, size: int(max(0, min(req.ContentLength, 1<<20))), point: point}
	}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			a.Panic = fmt.Sprintf("%v\n%s", p, st)
		}
	}()
	h.ServeHTTP(w, req)
	res := w.Result()
	a.Code, a.Header = res.StatusCode, res.Header
	a.Body, _ = io.ReadAll(res.Body)
	res.Body.Close()
	if w.length > w.n && !w.head && !w.bare {
		a.Panic = fmt.Sprintf("the answer %d announces %d bytes and ends after %d: %.300s", a.Code, w.length, w.n, a.Body)
		return
	}
	if strings.EqualFold(a.Header.Get("Content-Encoding"), "gzip") && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && len(a.Body) > 0 {
		z, err := gzip.NewReader(bytes.NewReader(a.Body))
		var b []byte
		if err == nil {
			b, err = io.ReadAll(z)
		}
		if err != nil {
			a.Panic = fmt.Sprintf("the answer %d cannot be unpacked: %v", a.Code, err)
			return
		}
		a.Body = b
		if a.Header.Get("Content-Length") != "" {
			a.Header.Set("Content-Length", strconv.Itoa(len(b)))
		}
	}
	return
}

// Cache is what a client kept of the answers to its GET requests, by address and header fields.
type Cache map[string]kept

type kept struct {
	Answer
	until time.Time
}

// Do serves a request of a client that keeps answers as far as they allow it, and asks whether they are still right.
func (c Cache) Do(h http.Handler, req *http.Request) Answer {
	if req.Method != http.MethodGet {
		return Do(h, req)
	}
	key := req.RequestURI + fmt.Sprint(req.Header)
	was, ok := c[key]
	if ok {
		if time.Now().Before(was.until) {
			return was.Answer
		}
		if t := was.Header.Get("ETag"); t != "" {
			req.Header.Set("If-None-Match", t)
		}
		if t := was.Header.Get("Last-Modified"); t != "" {
			req.Header.Set("If-Modified-Since", t)
		}
	}
	a := Do(h, req)
	if ok && a.Code == http.StatusNotModified {
		return was.Answer
	}
	delete(c, key)
	control := strings.ToLower(strings.Join(a.Header.Values("Cache-Control"), ","))
	if a.Code != 200 || strings.Contains(control, "no-store") {
		return a
	}
	k := kept{Answer: a}
	if _, v, ok := strings.Cut(control, "max-age="); ok && !strings.Contains(control, "no-cache") {
		n := 0
		fmt.Sscanf(v, "%d", &n)
		k.until = time.Now().Add(time.Duration(n) * time.Second)
	} else if t, err := http.ParseTime(a.Header.Get("Expires")); err == nil && control == "" {
		k.until = t
	}
	if !k.until.IsZero() || a.Header.Get("ETag") != "" || a.Header.Get("Last-Modified") != "" {
		c[key] = k
	}
	return a
}

// New builds a request as the HTTP server would hand it over.
func New(method, path string, body []byte) *http.Request {
	u, err := url.ParseRequestURI(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost",
		RequestURI: path, RemoteAddr: "127.0.0.1:1234", Body: http.NoBody}
	if body != nil {
		r.Body = io.NopCloser(bytes.NewReader(body))
		r.ContentLength = int64(len(body))
	}
	return r
}

// Routes maps operations to their documented route.
var Routes = map[string]string{"next": "/generate_ksn/", "encpin": "/encrypt_pin/", "decpin": "/decrypt_pin/", "mac": "/generate_mac/",
	"encdata": "/encrypt_data/", "decdata": "/decrypt_data/"}

// Shapes is the number of ways to write the same request.
const Shapes = 13

// Mixed lists shapes from Shapes on: the requests of a history are written alternately in these ways.
var Mixed = [][]int{{0, 11}, {11, 0}, {10, 11}, {11, 10}, {3, 11, 0}, {8, 0}, {0, 8}, {9, 0}, {2, 0}, {1, 5, 2}, {4, 3}, {6, 12}}

// ShapeAt writes the request at a place of a history.
func ShapeAt(r *http.Request, shape, step int) *http.Request {
	if shape >= Shapes {
		m := Mixed[shape-Shapes]
		shape = m[step%len(m)]
	}
	return Shape(r, shape)
}

// Shape rewrites a request without changing its meaning.
func Shape(r *http.Request, shape int) *http.Request {
	if shape == 0 {
		return r
	}
	var body []byte
	if r.ContentLength > 0 {
		body, _ = io.ReadAll(r.Body)
		r.Body = io.NopCloser(bytes.NewReader(body))
	}
	switch shape {
	case 1: // one byte per read
		if body != nil {
			r.Body = io.NopCloser(iotest.OneByteReader(bytes.NewReader(body)))
		}
	case 2: // chunked: length unknown
		if body != nil {
			r.ContentLength = -1
			r.TransferEncoding = []string{"chunked"}
		}
	case 3: // other order, white space, unknown members
		if body != nil {
			var m map[string]json.RawMessage
			json.Unmarshal(body, &m)
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			var b bytes.Buffer
			b.WriteString("\r\n {\t\"unknown\" : {\"a\":[1,null,{}]}")
			for _, k := range ks {
				fmt.Fprintf(&b, " ,\n %q : %s ", k, m[k])
			}
			b.WriteString("} \n")
			r.Body, r.ContentLength = io.NopCloser(&b), int64(b.Len())
		}
	case 4: // all members escaped, headers of a browser
		if body != nil {
			var m map[string]string
			if json.Unmarshal(body, &m) == nil && len(m) > 0 {
				var b bytes.Buffer
				sep := "{"
				for k, v := range m {
					fmt.Fprintf(&b, "%s%s:%s", sep, escaped(k), escaped(v))
					sep = ","
				}
				b.WriteString("}")
				r.Body, r.ContentLength = io.NopCloser(&b), int64(b.Len())
			}
		}
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		r.Header.Set("Origin", "https://moov.io")
		r.Header.Set("Accept", "text/html")
		r.Header.Set("X-Request-Id", "a1b2")
		r.Header.Set("Cookie", "a=b")
	case 5: // last read returns data and EOF together
		if body != nil {
			r.Body = io.NopCloser(iotest.DataErrReader(bytes.NewReader(body)))
		}
		r.Header.Set("Content-Type", "application/json; charset=utf-8")
	case 6: // a query that must not be mistaken for parameters
		r.URL.RawQuery = "ik=00&pin=9999&pan=1&data=zz&action=response&format=ISO-1&macType=hmac&encrypted=00&iv=00&algorithm=aes"
		r.RequestURI += "?" + r.URL.RawQuery
		r.Host = ""
	case 7: // a page under development
		r.Header.Set("Origin", "http://localhost:3000")
		r.Header.Set("Referer", "http://localhost:3000/")
		r.Header.Set("Access-Control-Request-Method", "POST")
		r.Header.Set("Content-Type", "text/plain")
	case 8: // behind proxies, with everything a client library may send
		for k, v := range map[string]string{"Origin": "http://example.com", "Authorization": "Bearer x", "Accept": "application/xml;q=0.9", "Accept-Encoding": "gzip, br", "Accept-Language": "de",
			"If-None-Match": "*", "If-Match": "\"x\"", "If-Modified-Since": "Thu, 01 Jan 1970 00:00:00 GMT", "Range": "bytes=0-1", "Idempotency-Key": "1", "X-Idempotency-Key": "1", "X-Http-Method-Override": "DELETE",
			"X-Forwarded-For": "10.0.0.1", "X-Forwarded-Prefix": "/x", "X-Forwarded-Proto": "https", "X-Request-Id": strings.Repeat("r", 100), "X-Original-Url": "/ping", "X-Rewrite-Url": "/ping",
			"Content-Encoding": "identity", "Cache-Control": "no-cache", "Expect": "100-continue", "User-Agent": "curl/8", "X-User-Id": "u", "X-Debug": "1", "Prefer": "return=minimal", "Content-Type": "application/json"} {
			r.Header.Set(k, v)
		}
	case 10: // the members of a machine record and of the other routes beside those of this one
		if body != nil {
			var m map[string]string
			if json.Unmarshal(body, &m) == nil && len(m) > 0 {
				all := map[string]string{"initialKey": "00112233445566778899aabbccddeeff", "CurrentKSN": "FFFF9876543210E00003", "TransactionKey": "ffeeddccbbaa99887766554433221100",
					"CreatedAt": "2001-02-03T04:05:06Z", "id": "1", "ik": "6ac292faa1315b4d858ab3a3d7d5933a", "requestID": "x", "pin": "9999", "pan": "4111111111111111", "format": "ISO-2",
					"encrypted": "0011223344556677", "data": "other", "action": "response", "macType": "hmac", "iv": "0102030405060708", "Algorithm": "aes", "AlgorithmKey": "AES256",
					"BaseDerivativeKey": "", "KeySerialNumber": ""}
				for k, v := range m {
					for o := range all {
						if strings.EqualFold(k, o) {
							delete(all, o)
						}
					}
					all[k] = v
				}
				b := js(all)
				r.Body, r.ContentLength = io.NopCloser(bytes.NewReader(b)), int64(len(b))
			}
		}
	case 11: // nothing that is empty
		if body != nil {
			var m map[string]string
			if json.Unmarshal(body, &m) == nil && len(m) > 0 {
				for k, v := range m {
					if v == "" {
						delete(m, k)
					}
				}
				b := js(m)
				r.Body, r.ContentLength = io.NopCloser(bytes.NewReader(b)), int64(len(b))
			}
		}
	case 12: // every character of the path written as its code
		var b strings.Builder
		for _, c := range []byte(r.URL.Path) {
			if c == '/' {
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "%%%02x", c)
			}
		}
		r.URL.RawPath, r.RequestURI = b.String(), b.String()
	case 9: // an old client
		r.Proto, r.ProtoMinor, r.Close = "HTTP/1.0", 0, true
		r.Header.Set("Connection", "close")
		r.Host = ""
	}
	return r
}

// escaped writes a JSON string with every character escaped.
func escaped(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range utf16.Encode([]rune(s)) {
		fmt.Fprintf(&b, "\\u%04x", u)
	}
	b.WriteByte('"')
	return b.String()
}

func js(m map[string]string) []byte {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// Request of an operation; nil if it has no route.
func Request(op model.Op) *http.Request {
	ik := url.PathEscape(op.IK)
	switch op.Fn {
	case "list":
		return New("GET", "/machines", nil)
	case "get":
		return New("GET", "/machine/"+ik, nil)
	case "create":
		return New("POST", "/machine", js(map[string]string{"Algorithm": op.Base.Algorithm, "AlgorithmKey": op.Base.AlgorithmKey,
			"BaseDerivativeKey": op.Base.BaseDerivativeKey, "KeySerialNumber": op.Base.KeySerialNumber}))
	case "next":
		return New("POST", "/generate_ksn/"+ik, []byte("{}"))
	case "encpin":
		return New("POST", "/encrypt_pin/"+ik, js(map[string]string{"pin": op.A, "pan": op.B, "format": op.C}))
	case "decpin":
		return New("POST", "/decrypt_pin/"+ik, js(map[string]string{"encrypted": op.A, "pan": op.B, "format": op.C}))
	case "mac":
		return New("POST", "/generate_mac/"+ik, js(map[string]string{"data": op.A, "action": op.B, "macType": op.C}))
	case "encdata":
		return New("POST", "/encrypt_data/"+ik, js(map[string]string{"data": op.A, "action": op.B, "iv": op.C}))
	case "decdata":
		return New("POST", "/decrypt_data/"+ik, js(map[string]string{"data": op.A, "action": op.B, "iv": op.C}))
	}
	return nil
}

// field is a member of a JSON object, compared like the decoder of a client would: ignoring case.
func field(m map[string]json.RawMessage, n string) (json.RawMessage, bool) {
	if v, ok := m[n]; ok {
		return v, true
	}
	for k, v := range m {
		if strings.EqualFold(k, n) {
			return v, true
		}
	}
	return nil, false
}

// IsJSON tells whether an answer is labelled as JSON.
func IsJSON(a Answer) bool {
	v := a.Header.Values("Content-Type")
	if len(v) != 1 {
		return false
	}
	m, _, err := mime.ParseMediaType(v[0])
	return err == nil && m == "application/json"
}

// ErrorOf is the reason a response reports, "" if none.
func ErrorOf(a Answer) (reason string, isObject bool) {
	var m map[string]json.RawMessage
	if json.Unmarshal(a.Body, &m) != nil {
		return "", false
	}
	v, ok := field(m, "error")
	if !ok || string(v) == "null" {
		return "", true
	}
	var s string
	if json.Unmarshal(v, &s) != nil {
		return "", true // not a readable reason
	}
	return s, true
}

// Res reads the answer of an operation. A response that is neither a failure nor carries the documented field is
// an error of kind "malformed".
func Res(op model.Op, a Answer) model.Res {
	if a.Panic != "" {
		return model.Res{Kind: "panic", S: a.Panic}
	}
	if a.Code < 200 || a.Code > 299 {
		r, _ := ErrorOf(a)
		return model.Res{Kind: "error", S: r, NotFnd: a.Code == 404}
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(a.Body, &m); err != nil {
		return model.Res{Kind: "malformed", S: a.String()}
	}
	bad := model.Res{Kind: "malformed", S: a.String()}
	text := func(n string) model.Res {
		v, ok := field(m, n)
		var s string
		if !ok || json.Unmarshal(v, &s) != nil {
			return bad
		}
		return model.Res{Kind: "text", S: s, JSON: true}
	}
	switch op.Fn {
	case "list":
		v, ok := field(m, "machines")
		var ms []*server.Machine
		if !ok || json.Unmarshal(v, &ms) != nil {
			return bad
		}
		var o []string
		for _, x := range ms {
			o = append(o, model.Canon(x))
		}
		sort.Strings(o)
		return model.Res{Kind: "list", S: strings.Join(o, ";")}
	case "get", "create":
		v, ok := field(m, "machine")
		var x *server.Machine
		if !ok || json.Unmarshal(v, &x) != nil || x == nil {
			return bad
		}
		if op.Fn == "create" {
			if ik := text("ik"); ik.Kind != "text" || ik.S != x.InitialKey {
				return bad
			}
		}
		return model.Res{Kind: "record", S: model.Canon(x)}
	case "next":
		r := text("ksn")
		r.Kind = map[string]string{"text": "ksn", "malformed": "malformed"}[r.Kind]
		return r
	case "encpin", "encdata":
		return text("encrypted")
	case "decpin":
		return text("decrypted")
	case "mac":
		return text("generated")
	case "decdata":
		return text("data")
	}
	return bad
}

// Exec runs the operation over HTTP.
func Exec(h http.Handler, op model.Op) (model.Res, Answer) {
	a := Do(h, Request(op))
	return Res(op, a), a
}
