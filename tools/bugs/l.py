exec(open("/verif/tools/bugs/head.py").read())

# ---- the server process
bug(id="C27-header-bytes", property="C27",
 edits=[("cmd/server/main.go", "		IdleTimeout:       idleTimeout,\n", "		IdleTimeout:       idleTimeout,\n		MaxHeaderBytes:    1024,\n"), ("cmd/server/main.go", '	idleTimeout, _ := time.ParseDuration("60s")\n', "	idleTimeout := time.Minute\n")],
 needs="a request with more than 5 KB of header fields", breaks="it is answered 431 instead of by its route",
 demo_sh=srv('''
a, b = port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % a, "-admin.addr", "127.0.0.1:%d" % b]))
up(a)
try:
    q = urllib.request.Request("http://127.0.0.1:%d/ping" % a, headers={"Cookie": "c" * 9000})
    rc = 0 if urllib.request.urlopen(q, timeout=10).read() == b"PONG" else 1
except OSError:
    rc = 1
'''))

bug(id="C27-body-limit", property="C27",
 edits=[("cmd/server/main.go", "		Handler: handler,\n", "		Handler: http.MaxBytesHandler(handler, 64<<10),\n")],
 needs="a request body of more than 64 KiB", breaks="the process refuses it",
 demo_sh=srv('''
a, b = port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % a, "-admin.addr", "127.0.0.1:%d" % b]))
up(a)
def post(path, body):
    return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d%s" % (a, path), data=body, method="POST"), timeout=10).read().decode()
import json
try:
    ik = json.loads(post("/machine", b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'))["ik"]
    post("/encrypt_data/" + ik, json.dumps({"Data": "d" * 100000, "Action": "request"}).encode())
    rc = 0
except OSError:
    rc = 1
'''))

bug(id="C27-connections", property="C27",
 edits=[("cmd/server/main.go", '''	serve := &http.Server{
		Addr:    *httpAddr,
''', '''	// every connection costs memory, so there are not too many
	var connections atomic.Int32
	serve := &http.Server{
		Addr: *httpAddr,
		ConnState: func(conn net.Conn, state http.ConnState) {
			switch state {
			case http.StateNew:
				if connections.Add(1) > 32 {
					conn.Close()
				}
			case http.StateClosed, http.StateHijacked:
				connections.Add(-1)
			}
		},
'''), ("cmd/server/main.go", '	"net/http"\n', '	"net"\n	"net/http"\n'), ("cmd/server/main.go", '	"syscall"\n', '	"sync/atomic"\n	"syscall"\n')],
 needs="more than 32 open connections", breaks="further connections are closed without an answer",
 demo_sh=srv('''
a, b = port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % a, "-admin.addr", "127.0.0.1:%d" % b]))
up(a)
idle = [socket.create_connection(("127.0.0.1", a)) for _ in range(60)]
time.sleep(0.3)
try:
    rc = 0 if get(a, "/ping") == "PONG" else 1
except OSError:
    rc = 1
'''))

bug(id="C27-timeout-handler", property="C27",
 edits=[("cmd/server/main.go", "		Handler: handler,\n", '		Handler: http.TimeoutHandler(handler, 3*time.Second, "too slow"),\n')],
 needs="a request whose body takes more than three seconds to arrive", breaks="it is answered 503 though it is within the read timeout of 30 s",
 demo_sh=srv('''
a, b = port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % a, "-admin.addr", "127.0.0.1:%d" % b]))
up(a)
s = socket.create_connection(("127.0.0.1", a))
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body))
time.sleep(4)
try:
    s.sendall(body)
    rc = 0 if s.recv(65536).startswith(b"HTTP/1.1 200") else 1
except OSError:
    rc = 1
'''))

# ---- the command line
bug(id="C20-long-result", property="C20",
 edits=[("cmd/dukptcli/main.go", '	fmt.Printf("RESULT: %s\\n", result)\n', '	fmt.Printf("RESULT: %.2000s\\n", result)\n')],
 needs="a result of more than 2000 characters", breaks="it is cut",
 demo_sh=CLI % '''r=$("$t/cli" -algorithm des -en -en.tk 042666B49184CFA368DE9628D0397BC9 -en.iv 0000 -en.data "$(printf 'a%.0s' $(seq 1 4000))")
[ ${#r} -ge 8000 ]'''.replace("%", "%"))

# ---- REST
bug(id="C24-etag", property="C24", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''		// Only write json body if we're setting response as json
		return json.NewEncoder(w).Encode(response)
''', '''		// Only write json body if we're setting response as json
		var body bytes.Buffer
		if err := json.NewEncoder(&body).Encode(response); err != nil {
			return err
		}
		if r, ok := ctx.Value(httptransport.ContextKeyRequestMethod).(string); ok && r == http.MethodGet {
			tag := fmt.Sprintf("%q", strconv.Itoa(body.Len()))
			w.Header().Set("ETag", tag)
			if match, _ := ctx.Value(ifNoneMatch{}).(string); match == tag {
				w.WriteHeader(http.StatusNotModified)
				return nil
			}
		}
		_, err := body.WriteTo(w)
		return err
'''), ("pkg/server/routing.go", '	"context"\n', '	"bytes"\n	"context"\n'),
 ("pkg/server/routing.go", "		httptransport.ServerBefore(saveCORSHeadersIntoContext()),\n", '''		httptransport.ServerBefore(saveCORSHeadersIntoContext(), httptransport.PopulateRequestContext, func(ctx context.Context, r *http.Request) context.Context {
			return context.WithValue(ctx, ifNoneMatch{}, r.Header.Get("If-None-Match"))
		}),
'''), ("pkg/server/routing.go", "func MakeHTTPHandler(", '''type ifNoneMatch struct{}

// MakeHTTPHandler routes requests to the service
func MakeHTTPHandler(''')],
 needs="a get with the tag of an earlier answer, after the machine moved on", breaks="the answer says that nothing changed",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", aesBody)
	ik := v["ik"].(string)
	c, _, hd := call(t, h, "GET", "/machine/"+ik, "")
	call(t, h, "POST", "/generate_ksn/"+ik, "")
	c, _, _ = call(t, h, "GET", "/machine/"+ik, "", "If-None-Match", hd.Get("ETag"), "X-A", "b")
	if c != 200 { t.Fatal(c) }
}''')

bug(id="C24-request-id", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''func generateKSNEndpoint(s Service) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
''', '''func generateKSNEndpoint(s Service) endpoint.Endpoint {
	var mtx sync.Mutex
	answered := make(map[string]generateKSNResponse) // clients repeat requests under the same request id
	return func(_ context.Context, request interface{}) (interface{}, error) {
'''), ("pkg/server/handlers.go", '''		resp := generateKSNResponse{}
		m, err := s.MakeNextKSN(req.ik)
''', '''		mtx.Lock()
		defer mtx.Unlock()
		resp, repeated := answered[req.requestID]
		if repeated && req.requestID != "" {
			return resp, nil
		}
		m, err := s.MakeNextKSN(req.ik)
'''), ("pkg/server/handlers.go", '''		resp.KSN = m.CurrentKSN
		return resp, nil
''', '''		resp.KSN = m.CurrentKSN
		answered[req.requestID] = resp
		return resp, nil
'''), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="two next-KSN requests with the same request id", breaks="the second moves no machine and may carry another machine's number",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", aesBody)
	_, w, _ := call(t, h, "POST", "/machine", desBody)
	_, a, _ := call(t, h, "POST", "/generate_ksn/"+v["ik"].(string), "", "X-Request-Id", "7")
	_, b, _ := call(t, h, "POST", "/generate_ksn/"+w["ik"].(string), "", "X-Request-Id", "7")
	if a["ksn"] == b["ksn"] { t.Fatal(a, b) }
}''')

bug(id="C30-request-id", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''func generateKSNEndpoint(s Service) endpoint.Endpoint {
	return func(_ context.Context, request interface{}) (interface{}, error) {
''', '''func generateKSNEndpoint(s Service) endpoint.Endpoint {
	type flight struct {
		sync.WaitGroup
		m   *Machine
		err error
	}
	var mtx sync.Mutex
	flights := make(map[string]*flight)
	// next joins a request that is sent twice
	next := func(id, ik string) (*Machine, error) {
		if id == "" {
			return s.MakeNextKSN(ik)
		}
		mtx.Lock()
		if f := flights[id]; f != nil {
			mtx.Unlock()
			f.Wait()
			return f.m, f.err
		}
		f := &flight{}
		f.Add(1)
		flights[id] = f
		mtx.Unlock()
		f.m, f.err = s.MakeNextKSN(ik)
		f.Done()
		mtx.Lock()
		delete(flights, id)
		mtx.Unlock()
		return f.m, f.err
	}
	return func(_ context.Context, request interface{}) (interface{}, error) {
'''), ("pkg/server/handlers.go", '''		m, err := s.MakeNextKSN(req.ik)
''', '''		m, err := next(req.requestID, req.ik)
'''), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="two overlapping next-KSN requests with one request id", breaks="they get one number",
 demo=HT.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 4000; i++ {
		h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
		_, v, _ := call(t, h, "POST", "/machine", aesBody)
		ik := v["ik"].(string)
		var mu sync.Mutex
		var w sync.WaitGroup
		seen := map[any]bool{}
		for g := 0; g < 6; g++ {
			w.Add(1)
			go func() {
				defer w.Done()
				_, a, _ := call(t, h, "POST", "/generate_ksn/"+ik, "", "X-Request-Id", "7")
				mu.Lock(); defer mu.Unlock()
				if seen[a["ksn"]] { t.Error(a) }
				seen[a["ksn"]] = true
			}()
		}
		w.Wait()
		if t.Failed() { return }
	}
}''')

bug(id="C26-accept-quality", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		// Only write json body if we're setting response as json
		return json.NewEncoder(w).Encode(response)
''', '''		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		// Only write json body if we're setting response as json
		enc := json.NewEncoder(w)
		if accept, _ := ctx.Value(httptransport.ContextKeyRequestAccept).(string); wantsIndent(accept) {
			enc.SetIndent("", "  ")
		}
		return enc.Encode(response)
'''), ("pkg/server/routing.go", "		httptransport.ServerBefore(saveCORSHeadersIntoContext()),\n", "		httptransport.ServerBefore(saveCORSHeadersIntoContext(), httptransport.PopulateRequestContext),\n"),
 ("pkg/server/routing.go", "func MakeHTTPHandler(", '''// wantsIndent tells if the client asks for text that people read
func wantsIndent(accept string) bool {
	for _, kind := range strings.Split(accept, ",") {
		if parts := strings.Split(kind, ";"); len(parts) > 1 {
			for _, p := range parts[1:] {
				if kv := strings.SplitN(p, "=", 2); strings.TrimSpace(kv[0]) == "indent" && kv[1] == "true" {
					return true
				}
			}
		}
	}
	return false
}

// MakeHTTPHandler routes requests to the service
func MakeHTTPHandler(''')],
 needs="an Accept header with the parameter indent and no value", breaks="the handler panics",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if c, _, _ := call(t, h, "GET", "/machines", "", "Accept", "application/json;indent"); c != 200 { t.Fatal(c) }
}''')

# ---- the service
bug(id="C21-pin-tries", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", '''	if params.Format == "" {
		params.Format = "ISO-0"
	}

	return DecryptPin(params)
''', '''	if params.Format == "" {
		params.Format = "ISO-0"
	}

	// guessing is not allowed
	v, _ := s.failures.LoadOrStore(ik, new(atomic.Int32))
	failures := v.(*atomic.Int32)
	if failures.Load() >= 100 {
		return "", errors.New("too many failures")
	}
	result, err := DecryptPin(params)
	if err != nil {
		failures.Add(1)
	} else {
		failures.Store(0)
	}
	return result, err
'''), ("pkg/server/service.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n'), ("pkg/server/service.go", "	store Repository\n}\n", "	store Repository\n\n	failures sync.Map // of *atomic.Int32 by initial key\n}\n")],
 needs="a hundred failing PIN decryptions in a row on one machine", breaks="its PINs cannot be decrypted any more",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	e, err := s.EncryptPin(m.InitialKey, "1234", "4012345678909", "ISO-0")
	if err != nil { t.Fatal(err) }
	for i := 0; i < 120; i++ { s.DecryptPin(m.InitialKey, "00", "4012345678909", "ISO-0") }
	if p, err := s.DecryptPin(m.InitialKey, e, "4012345678909", "ISO-0"); p != "1234" { t.Fatal(err) }
}''')

bug(id="C22-hmac-in-place", property="C22", pkg="pkg/server",
 edits=[("pkg/server/service.go", '''func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
	m, err := s.GetMachine(ik)
''', '''func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	m, err := s.store.FindMachine(ik)
'''), ("pkg/server/service.go", '''	return GenerateMac(params)
}
''', '''	mac, err := GenerateMac(params)
	if err != nil {
		m.CurrentKSN = m.KeySerialNumber
	}
	return mac, err
}
''')],
 needs="a failing MAC request on a machine that moved on", breaks="the machine's key serial number goes back",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KeySerialNumber: "123456789012345600000001"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	s.MakeNextKSN(m.InitialKey)
	a, _ := s.GetMachine(m.InitialKey)
	s.GenerateMac(m.InitialKey, "x", "request", "nomac")
	s.GenerateMac(m.InitialKey, "x", "request", "")
	b, _ := s.GetMachine(m.InitialKey)
	if *a != *b { t.Fatal(a, b) }
}''')

# ---- the library
bug(id="C18-scratch-ring", property="C18", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", '''	var result []byte
	b := make([]byte, 2)
''', '''	// callers consume the bytes at once, and rarely more than four at a time
	ring := &scratch[turn.Add(1)%uint32(len(scratch))]
	result := ring[:0]
	b := make([]byte, 2)
'''), ("pkg/aes/aes_internal.go", "func (k *keyDerivationData) Bytes() []byte {\n", '''var (
	turn    atomic.Uint32
	scratch [4][32]byte
)

// Bytes serializes derivation data
func (k *keyDerivationData) Bytes() []byte {
'''), ("pkg/aes/aes_internal.go", '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n')],
 needs="five derivations in flight at once", breaks="one of them uses the data of another",
 demo=AESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	want := make([][]byte, 64)
	for i := range want { want[i], _ = DerivationOfInitialKey(hx("FEDCBA9876543210F1F1F1F1F1F1F1F1"), []byte{byte(i), 2, 3, 4, 5, 6, 7, 8}) }
	var w sync.WaitGroup
	for g := range want {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 40000; i++ {
				k, _ := DerivationOfInitialKey(hx("FEDCBA9876543210F1F1F1F1F1F1F1F1"), []byte{byte(g), 2, 3, 4, 5, 6, 7, 8})
				if !bytes.Equal(k, want[g]) { t.Error(g); return }
			}
		}()
	}
	w.Wait()
}''')

bug(id="C28-address-cache", property="C28", pkg="encryption",
 edits=[("encryption/aes_ecb.go", '''	cipher, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}

	return &AesECB{
		cipherBlock: cipher,
	}, nil
''', '''	if len(key) == 32 {
		// the schedule of a long key is worth keeping
		if known, ok := schedules.Load([2]any{&key[0], key[31]}); ok {
			return &AesECB{cipherBlock: known.(cipher.Block)}, nil
		}
	}
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}
	if len(key) == 32 {
		schedules.Store([2]any{&key[0], key[31]}, block)
	}

	return &AesECB{
		cipherBlock: block,
	}, nil
'''), ("encryption/aes_ecb.go", "func NewAesECB(", '''// schedules are kept by the place of the key and its last byte
var schedules sync.Map

// NewAesECB creates a helper for single blocks
func NewAesECB('''), ("encryption/aes_ecb.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 needs="a helper of a 32-byte key made from a slice that held another key with the same last byte before", breaks="it uses the earlier key",
 demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	key := make([]byte, 32)
	a, _ := NewAesECB(key)
	x, _ := a.Encrypt(make([]byte, 16))
	key[0] = 1
	b, _ := NewAesECB(key)
	y, _ := b.Encrypt(make([]byte, 16))
	if bytes.Equal(x, y) { t.Fatal() }
}''')

bug(id="C17-address-memo", property="C17", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	return derivationKey(bdk, derivationData)\n", """	// the same base key comes again and again
	id := place{&bdk[0], len(bdk), [initialKeyIdLength]byte(derivationData.InitialKeyID)}
	if known, ok := recent.Load(id); ok {
		return append([]byte{}, known.([]byte)...), nil
	}
	key, err := derivationKey(bdk, derivationData)
	if err == nil {
		recent.Store(id, append([]byte{}, key...))
	}
	return key, err
"""), ("pkg/aes/aes.go", "func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {\n", """func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
	// the result is kept for the place of the base key
	type place struct {
		at  *byte
		len int
		id  [initialKeyIdLength]byte
	}
"""), ("pkg/aes/aes_internal.go", "func (k *keyDerivationData) Bytes() []byte {\n", """var recent sync.Map // of initial keys

// Bytes serializes derivation data
func (k *keyDerivationData) Bytes() []byte {
"""), ("pkg/aes/aes_internal.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 needs="a base key slice that is filled with another key between two derivations for one device", breaks="the earlier key's result is returned",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	bdk := make([]byte, 16)
	x, _ := DerivationOfInitialKey(bdk, []byte{1, 2, 3, 4, 5, 6, 7, 8})
	bdk[3] = 1
	y, _ := DerivationOfInitialKey(bdk, []byte{1, 2, 3, 4, 5, 6, 7, 8})
	if bytes.Equal(x, y) { t.Fatal() }
}''')

bug(id="C09-fold", property="C09", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", """func GenerateCMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}

	if action != pkg.ActionRequest && action != pkg.ActionResponse {
""", """func GenerateCMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {
	if err := checkWorkingKeyLength(len(currentKey), keyType); err != nil {
		return nil, err
	}

	if len(action) > len(pkg.ActionResponse) && strings.EqualFold(action, pkg.ActionResponse) {
		action = pkg.ActionResponse
	}
	if action != pkg.ActionResponse {
"""), ("pkg/aes/aes.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs="an action spelled with a letter that folds to one of response's", breaks="it is treated as a response",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateCMAC(k, hx("123456789012345600000001"), "x", KeyAES128Type, "re\u017fponse")
	b, _ := GenerateCMAC(k, hx("123456789012345600000001"), "x", KeyAES128Type, "request")
	if !bytes.Equal(a, b) { t.Fatal() }
}''')
