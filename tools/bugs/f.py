exec(open("/verif/tools/bugs/head.py").read())

U = "github.com/moov-io/dukpt/pkg"

bug(id="C14-hex-text", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	leftKey := dataKey[:desBlockLen]\n	rightKey := dataKey[desBlockLen:]\n\n	plainTextBytes := []byte(plainText)\n", "	leftKey := dataKey[:desBlockLen]\n	rightKey := dataKey[desBlockLen:]\n\n	plainTextBytes := pkg.HexDecode(plainText)\n	if plainTextBytes == nil {\n		plainTextBytes = []byte(plainText)\n	}\n")],
 needs="a message that happens to be an even number of hexadecimal digits", breaks="the MAC is over the decoded bytes",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(k, "40123456", "request")
	b, _ := GenerateMac(k, "@\\x12\\x34\\x56", "request")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C13-newlines", property="C13", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)\n	copy(serializePlaintext, plaintext)\n", "	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)\n	copy(serializePlaintext, strings.ReplaceAll(plaintext, \"\\r\\n\", \"\\n\"))\n"), ("pkg/aes/aes.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs="a plaintext with a CR LF pair", breaks="the pair becomes a single LF",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := EncryptData(k, n, nil, "ab\\r\\ncd", "AES128", "request")
	b, _ := DecryptData(k, n, a, nil, "AES128", "request")
	if !strings.HasPrefix(b, "ab\\r\\ncd") { t.Fatalf("%q", b) }
}''')

bug(id="C16-ragged-tail", property="C16", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	repeatCnt := len(ciphertext) / aes.BlockSize\n	if len(ciphertext)%aes.BlockSize > 0 {\n		repeatCnt++\n	}\n", "	repeatCnt := len(ciphertext) / aes.BlockSize\n	if tail := len(ciphertext) % aes.BlockSize; tail > 0 {\n		if repeatCnt > 3 {\n			tail = int(ciphertext[len(ciphertext)-tail+aes.BlockSize/2])\n		}\n		repeatCnt++\n	}\n")],
 needs="a ciphertext of more than four blocks whose last block has at most half its bytes", breaks="decryption panics",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	DecryptData(hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001"), make([]byte, 69), nil, "AES128", "request")
}''')

bug(id="C17-shared-answer", property="C17", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	return append(leftHalf, rightHalf...), nil\n", "	ik := append(leftHalf, rightHalf...)\n	if known, ok := initialKeys.LoadOrStore(string(ik), ik); ok {\n		return known.([]byte), nil\n	}\n	return ik, nil\n}\n\n// initialKeys holds each initial key once\nvar initialKeys sync.Map\n\nfunc forgetInitialKeys() {\n	initialKeys.Clear()\n"),
  ("pkg/des/des.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 needs="the same initial key derived twice, the first result being overwritten by its owner", breaks="results share memory",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	a, _ := DerivationOfInitialKey(hx("0123456789ABCDEFFEDCBA9876543210"), hx("FFFF9876543210E00000"))
	want := hex.EncodeToString(a)
	b, _ := DerivationOfInitialKey(hx("0123456789ABCDEFFEDCBA9876543210"), hx("FFFF9876543210E00000"))
	for i := range a { a[i] = 0 }
	if hex.EncodeToString(b) != want { t.Fatalf("%x", b) }
}''')

bug(id="C18-pool-early", property="C18", pkg="pkg/aes", race=True,
 edits=[("pkg/aes/aes_internal.go", "		data := derivationData.Bytes()\n		encrypted, encErr := aesEcb.Encrypt(data)\n", "		data := blocks.Get().(*[aes.BlockSize]byte)\n		copy(data[:], derivationData.Bytes())\n		blocks.Put(data)\n		encrypted, encErr := aesEcb.Encrypt(data[:])\n"),
  ("pkg/aes/aes_internal.go", "func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error) {\n", "// blocks are reused for derivation data\nvar blocks = sync.Pool{New: func() any { return new([aes.BlockSize]byte) }}\n\nfunc derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error) {\n"),
  ("pkg/aes/aes_internal.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 needs="a second derivation that takes the block from the pool before the first has enciphered it", breaks="the first derives a wrong key",
 demo=AESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	bdk := hx("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			id := append(hx("12345678901234"), byte(g))
			want, _ := DerivationOfInitialKey(bdk, id)
			for i := 0; i < 20000; i++ {
				if a, _ := DerivationOfInitialKey(bdk, id); !bytes.Equal(a, want) { t.Error("differs"); return }
			}
		}()
	}
	w.Wait()
}''')

bug(id="C19-0x-prefix", property="C19", pkg="pkg/server",
 edits=[("pkg/util.go", "	out := make([]byte, hex.DecodedLen(len(data)))\n", "	data = strings.ReplaceAll(data, \":\", \"\")\n	out := make([]byte, hex.DecodedLen(len(data)))\n"), ("pkg/util.go", '	"errors"\n', '	"errors"\n	"strings"\n')],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C20-percent", property="C20",
 edits=[("cmd/dukptcli/main.go", '	fmt.Printf("RESULT: %s\\n", result)\n', '	fmt.Printf("RESULT: " + result + "\\n")\n')],
 needs="a decrypted text with a percent sign", breaks="the text is printed with formatting noise", demo_sh=None)
BUGS.pop()
bug(id="C20-percent", property="C20",
 edits=[("cmd/dukptcli/main.go", '	fmt.Printf("RESULT: %s\\n", result)\n', '	line := "RESULT: " + result + "\\n"\n	fmt.Fprintf(os.Stdout, line, []any{}...)\n')],
 needs="a decrypted text with a percent sign", breaks="the text is printed with formatting noise",
 demo_sh=CLI % '''c=$("$t/cli" -en -en.tk=042666B49184CFA368DE9628D0397BC9 -en.iv=0000000000000000 -en.data='100%% of' | sed 's/RESULT: //')
p=$("$t/cli" -de -de.tk=042666B49184CFA368DE9628D0397BC9 -de.iv=0000000000000000 -de.data="$c" | tr -d '\\0')
[ "$p" = "RESULT: 100%% of" ]''')

bug(id="C20-at-file", property="C20",
 edits=[("cmd/dukptcli/main.go", "		params.Plaintext = *flagEncryptData\n", "		params.Plaintext = *flagEncryptData\n		if name, ok := strings.CutPrefix(*flagEncryptData, \"@\"); ok {\n			content, err := os.ReadFile(name)\n			if err != nil {\n				fmt.Printf(\"%s\\n\", err.Error())\n				os.Exit(1)\n			}\n			params.Plaintext = string(content)\n		}\n"),
  ("cmd/dukptcli/main.go", "		params.IV = *flagEncryptIV\n		params.KSN = *flagEncryptKSN\n", "		params.KSN, params.IV = *flagEncryptKSN, *flagEncryptIV\n")],
 needs="data to encrypt that begins with an at sign", breaks="a file of that name is read instead",
 demo_sh=CLI % '''"$t/cli" -en -en.tk=042666B49184CFA368DE9628D0397BC9 -en.iv=0000000000000000 -en.data='@home' | grep -q RESULT''')

bug(id="C21-page", property="C21", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	for i := range r.machines {\n		files = append(files, r.machines[i])\n", "	for i := range r.machines {\n		if files = append(files, r.machines[i]); len(files) == 500 {\n			break\n		}\n")],
 needs="more than 500 machines", breaks="the list leaves some out",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	for i := 0; i < 600; i++ {
		m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: hex.EncodeToString(append(hx("0123456789ABCDEFFEDCBA987654"), byte(i>>7<<1), byte(i<<1))), KeySerialNumber: "FFFF9876543210E00001"})
		if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	}
	if n := len(s.GetMachines()); n != 600 { t.Fatal(n) }
}''')

bug(id="C21-sticky-format", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", "		PIN:          ciphertext,\n		PAN:          pan,\n	}\n\n	if params.Format == \"\" {\n		params.Format = \"ISO-0\"\n	}\n", "		PIN:          ciphertext,\n		PAN:          pan,\n	}\n\n	if params.Format == \"\" {\n		params.Format = defaultFormat(pan)\n	}\n"),
  ("pkg/server/service.go", "func (s *service) GenerateMac(", "// defaultFormat is the pin block format used when none is given\nfunc defaultFormat(pan string) string {\n	if len(pan) == 0 {\n		return \"ISO-1\"\n	}\n	return \"ISO-0\"\n}\n\nfunc (s *service) GenerateMac(")],
 needs="a PIN decryption without format and account number", breaks="a block of another format is accepted",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	s.CreateMachine(m)
	c, err := s.EncryptPin(m.InitialKey, "1234", "4012345678909", "ISO-1")
	if err != nil { t.Fatal(err) }
	if p, err := s.DecryptPin(m.InitialKey, c, "", ""); err == nil { t.Fatal(p) }
}''')

bug(id="C22-list-buffer", property="C22", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	files := make([]*Machine, 0, len(r.machines))\n", "	files := make([]*Machine, 0, len(r.machines))\n	_ = files\n")],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C22-kept-ksn", property="C22", pkg="pkg/server",
 edits=[("pkg/server/service.go", "	m.InitialKey = ik\n", "	if m.InitialKey == \"\" || m.InitialKey != ik {\n		m.InitialKey = ik\n	} else if known, _ := s.store.FindMachine(ik); known != nil && m.CurrentKSN != \"\" {\n		known.CurrentKSN = m.CurrentKSN\n	}\n")],
 needs="a record whose current key serial number was edited, passed to create again", breaks="the refused creation changes the stored machine",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	s.CreateMachine(m)
	m.CurrentKSN = "FFFF9876543210E00100"
	if s.CreateMachine(m) == nil { t.Fatal("created twice") }
	g, _ := s.GetMachine(m.InitialKey)
	if g.CurrentKSN != "FFFF9876543210E00001" { t.Fatal(g.CurrentKSN) }
}''')

bug(id="C23-coalesced", property="C23", pkg="pkg/server",
 edits=[("pkg/server/service.go", "// MakeNextKSN does to generate next ksn\nfunc (s *service) MakeNextKSN(ik string) (*Machine, error) {\n", "// MakeNextKSN generates the next ksn, requests for the same machine that arrive meanwhile share the answer\nfunc (s *service) MakeNextKSN(ik string) (*Machine, error) {\n	f := &flight{}\n	f.done.Add(1)\n	if other, busy := flights.LoadOrStore(ik, f); busy {\n		other.(*flight).done.Wait()\n		return other.(*flight).m, other.(*flight).err\n	}\n	f.m, f.err = s.makeNextKSN(ik)\n	flights.Delete(ik)\n	f.done.Done()\n	return f.m, f.err\n}\n\ntype flight struct {\n	done sync.WaitGroup\n	m    *Machine\n	err  error\n}\n\nvar flights sync.Map\n\nfunc (s *service) makeNextKSN(ik string) (*Machine, error) {\n")],
 needs="two next-KSN requests of one machine at the same time", breaks="both are given the same key serial number",
 demo=SRVH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	s.CreateMachine(m)
	var w sync.WaitGroup
	var mu sync.Mutex
	seen := map[string]bool{}
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 3000; i++ {
				n, err := s.MakeNextKSN(m.InitialKey)
				if err != nil { t.Error(err); return }
				mu.Lock()
				if seen[n.CurrentKSN] { t.Error("twice"); mu.Unlock(); return }
				seen[n.CurrentKSN] = true
				mu.Unlock()
			}
		}()
	}
	w.Wait()
}''')

bug(id="C23-channel-flight", property="C23", pkg="pkg/server",
 edits=[("pkg/server/service.go", "// MakeNextKSN does to generate next ksn\nfunc (s *service) MakeNextKSN(ik string) (*Machine, error) {\n", "// MakeNextKSN generates the next ksn, requests for the same machine that arrive meanwhile share the answer\nfunc (s *service) MakeNextKSN(ik string) (*Machine, error) {\n	f := &flight{done: make(chan struct{})}\n	if other, busy := flights.LoadOrStore(ik, f); busy {\n		<-other.(*flight).done\n		return other.(*flight).m, other.(*flight).err\n	}\n	defer close(f.done)\n	defer flights.Delete(ik)\n	f.m, f.err = s.makeNextKSN(ik)\n	return f.m, f.err\n}\n\ntype flight struct {\n	done chan struct{}\n	m    *Machine\n	err  error\n}\n\nvar flights sync.Map\n\nfunc (s *service) makeNextKSN(ik string) (*Machine, error) {\n")],
 needs="two next-KSN requests of one machine at the same time", breaks="both are given the same key serial number (waiting on a channel)",
 demo=BUGS[-1]["demo"])

bug(id="C24-strict-json", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	err = json.Unmarshal(body, params)\n", "	decoder := json.NewDecoder(bytes.NewReader(body))\n	decoder.DisallowUnknownFields()\n	err = decoder.Decode(params)\n"), ("pkg/server/handlers.go", 'import (\n	"context"\n', 'import (\n	"bytes"\n	"context"\n')],
 needs="a request body with a field the route does not use", breaks="the request fails",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	c, w, _ := call(t, h, "POST", "/generate_mac/"+v["ik"].(string), `{"data":"abc","action":"request","macType":"cmac","comment":"x"}`)
	if c != 200 || w["generated"] == "" { t.Fatal(c, w) }
}''')

bug(id="C24-content-type", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	body, err := io.ReadAll(request.Body)\n", "	if kind := request.Header.Get(\"Content-Type\"); kind != \"\" && kind != \"application/json\" {\n		return fmt.Errorf(\"unsupported content type %q\", kind)\n	}\n	body, err := io.ReadAll(request.Body)\n")],
 needs="a request with Content-Type application/json; charset=utf-8", breaks="the request fails",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	c, v, _ := call(t, h, "POST", "/machine", desBody, "Content-Type", "application/json; charset=utf-8")
	if c != 200 { t.Fatal(c, v) }
}''')
BUGS[-1]["edits"] = [("pkg/server/handlers.go", "	body, err := io.ReadAll(request.Body)\n	if err != nil {\n", "	var body []byte\n	body, err = io.ReadAll(request.Body)\n	if kind := request.Header.Get(\"Content-Type\"); kind != \"\" && kind != \"application/json\" {\n		err = fmt.Errorf(\"content type %q\", kind)\n	}\n	if err != nil {\n")]

bug(id="C24-query", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	req.pin = reqParams.Pin\n	req.pan = reqParams.Pan\n	req.format = reqParams.Format\n", "	req.pin, req.pan, req.format = reqParams.Pin, reqParams.Pan, reqParams.Format\n	if f := request.URL.Query().Get(\"format\"); f != \"\" {\n		req.format = f\n	}\n")],
 needs="an encrypt_pin request with a format in the query", breaks="the format in the body is ignored",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	b := `{"pin":"1234","pan":"4012345678909","format":"ISO-0"}`
	_, x, _ := call(t, h, "POST", "/encrypt_pin/"+v["ik"].(string), b)
	_, y, _ := call(t, h, "POST", "/encrypt_pin/"+v["ik"].(string)+"?format=ISO-2", b)
	if x["encrypted"] != y["encrypted"] { t.Fatal(x, y) }
}''')

bug(id="C25-handmade-json", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		w.Header().Set(\"Content-Type\", \"application/json; charset=utf-8\")\n		w.WriteHeader(codeFrom(e.error()))\n		return marshalStructWithError(response, w)\n", "		w.Header().Set(\"Content-Type\", \"application/json; charset=utf-8\")\n		w.WriteHeader(codeFrom(e.error()))\n		_, err := fmt.Fprintf(w, \"{\\\"error\\\":%q}\\n\", e.error().Error())\n		return err\n")],
 needs="a failing request on a machine whose name has a control character", breaks="the answer is not JSON",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	c, v, _ := call(t, h, "POST", "/generate_ksn/a%01b", "{}")
	if c != 404 || v["error"] == nil { t.Fatal(c, v) }
}''')

bug(id="C25-odd-name", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "	case errors.Is(err, ErrNotFound):\n		return http.StatusNotFound\n", "	case strings.HasSuffix(err.Error(), ErrNotFound.Error()) || strings.HasSuffix(err.Error(), \")\") && errors.Is(err, ErrNotFound) && !strings.Contains(err.Error(), \"())\"):\n		return http.StatusNotFound\n")],
 needs="an unknown machine whose name ends in an empty pair of parentheses", breaks="it is answered 500",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	c, v, _ := call(t, h, "POST", "/generate_ksn/a()", "{}")
	if c != 404 { t.Fatal(c, v) }
}''')
BUGS.pop()

bug(id="C25-accept", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		origin := r.Header.Get(\"Origin\")\n		return context.WithValue(ctx, contextKey, origin)\n", "		ctx = context.WithValue(ctx, plainKey{}, strings.HasPrefix(r.Header.Get(\"Accept\"), \"text/\"))\n		return context.WithValue(ctx, contextKey, r.Header.Get(\"Origin\"))\n"),
  ("pkg/server/routing.go", "func encodeError(_ context.Context, err error, w http.ResponseWriter) {\n	if err == nil {\n		err = ErrFoundABug\n	}\n", "func encodeError(ctx context.Context, err error, w http.ResponseWriter) {\n	if err == nil {\n		err = ErrFoundABug\n	}\n	if plain, _ := ctx.Value(plainKey{}).(bool); plain {\n		http.Error(w, err.Error(), codeFrom(err))\n		return\n	}\n"),
  ("pkg/server/routing.go", "var contextKey struct{}\n", "var contextKey struct{}\n\n// plainKey stores whether the client asked for text\ntype plainKey struct{}\n")],
 needs="a malformed request whose Accept header asks for text", breaks="the answer has no JSON body",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	c, v, _ := call(t, h, "POST", "/machine", "{", "Accept", "text/html,*/*")
	if c == 200 || v["error"] == nil { t.Fatal(c, v) }
}''')

bug(id="C26-two-origins", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		origin := r.Header.Get(\"Origin\")\n		return context.WithValue(ctx, contextKey, origin)\n", "		origins := r.Header.Values(\"Origin\")\n		if len(origins) == 0 {\n			return context.WithValue(ctx, contextKey, \"\")\n		}\n		return context.WithValue(ctx, contextKey, origins[len(origins)-1][:max(strings.Index(origins[0], \":\"), 0)]+origins[0][max(strings.Index(origins[0], \":\"), 0):])\n")],
 needs="a request with two Origin headers, the second of which is shorter than the first one's scheme", breaks="the handler panics",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	r := httptest.NewRequest("GET", "/machines", nil)
	r.Header["Origin"] = []string{"https://a.example", "x"}
	h.ServeHTTP(httptest.NewRecorder(), r)
}''')

bug(id="C27-ipv6", property="C27",
 edits=[("cmd/server/main.go", "		Addr:    *httpAddr,\n", "		Addr:    *httpAddr[:strings.IndexByte(*httpAddr+\":\", ':')] + (*httpAddr)[strings.IndexByte(*httpAddr+\":\", ':'):],\n")],
 needs="x", breaks="x", demo_sh="")
BUGS.pop()
bug(id="C27-ipv6", property="C27",
 edits=[("cmd/server/main.go", "		Addr:    *httpAddr,\n", "		Addr:    listenAddress(*httpAddr),\n"),
  ("cmd/server/main.go", "func main() {\n	flag.Parse()\n", "// listenAddress drops everything after the port\nfunc listenAddress(addr string) string {\n	if parts := strings.Split(addr, \":\"); len(parts) > 1 {\n		return parts[0] + \":\" + parts[1]\n	}\n	return addr\n}\n\nfunc main() {\n	flag.Parse()\n"), ("cmd/server/main.go", '	"os/signal"\n', '	"os/signal"\n	"strings"\n')],
 needs="an IPv6 listen address", breaks="the server does not listen there",
 demo_sh=srv('''
p, a = port(), port()
x = start(["-http.addr", "[::1]:%d" % p, "-admin.addr", "127.0.0.1:%d" % a])
procs.append(x)
for _ in range(100):
    try:
        urllib.request.urlopen("http://[::1]:%d/ping" % p, timeout=5).read()
        rc = 0
        break
    except OSError:
        time.sleep(0.05)
'''))

bug(id="C27-slow-header", property="C27",
 edits=[("cmd/server/main.go", "		ReadHeaderTimeout: readTimeout,\n", "		ReadHeaderTimeout: readTimeout / 15,\n")],
 needs="a client that takes more than two seconds to send its headers, a signal in between", breaks="the request in progress is dropped",
 demo_sh=srv('''
p, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % p, "-admin.addr", "127.0.0.1:%d" % a])
procs.append(x)
up(p)
s = socket.create_connection(("127.0.0.1", p))
s.sendall(b"GET /ping HTTP/1.1\\r\\nHost: x\\r\\n")
time.sleep(3)
try:
    s.sendall(b"\\r\\n")
    s.settimeout(10)
    rc = 0 if s.recv(100).startswith(b"HTTP/1.1 200") else 1
except OSError:
    rc = 1
'''))

bug(id="C28-shared-buffer", property="C28", pkg="encryption",
 edits=[("encryption/aes_ecb.go", "	cipherText := make([]byte, len(plainText))\n\n	a.cipherBlock.Encrypt(cipherText, plainText)\n\n	return cipherText, nil\n", "	a.cipherBlock.Encrypt(a.buffer[:], plainText)\n\n	return a.buffer[:], nil\n"),
  ("encryption/aes_ecb.go", "	cipherBlock cipher.Block\n}\n", "	cipherBlock cipher.Block\n	buffer      [aes.BlockSize]byte\n}\n")],
 needs="two blocks encrypted with one helper, the first result being read afterwards", breaks="the first result has changed",
 demo='package encryption\nimport ("testing"; "bytes")\n' + '''
func TestZZDemo(t *testing.T) {
	c, _ := NewAesECB(make([]byte, 16))
	a, _ := c.Encrypt(make([]byte, 16))
	k := append([]byte(nil), a...)
	c.Encrypt(bytes.Repeat([]byte{1}, 16))
	if !bytes.Equal(a, k) { t.Fatal("changed") }
}''')

bug(id="C29-capacity", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n	return nil\n", "	for ik := range r.machines {\n		if len(r.machines) < 1000 {\n			break\n		}\n		delete(r.machines, ik)\n	}\n	r.machines[m.InitialKey], m = m, nil\n	return nil\n")],
 needs="more than a thousand machines", breaks="an older one is dropped",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	for i := 0; i < 1100; i++ { r.StoreMachine(&Machine{InitialKey: strings.Repeat("a", i)}) }
	if n := len(r.FindAllMachines()); n != 1100 { t.Fatal(n) }
}''')

bug(id="C09-action-blank", property="C09", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	if action != pkg.ActionRequest && action != pkg.ActionResponse {\n		action = pkg.ActionRequest\n	}\n\n	params := derivationParams{\n		KeyUsage:   usageForMessageGeneration,\n		KeyType:    keyType,\n		Ksn:        ksn,\n		CurrentKey: currentKey,\n	}\n	if action == pkg.ActionResponse {\n		params.KeyUsage = usageForMessageVerification\n	}\n\n	macKey, err := generateDerivationKey(params)\n	if err != nil {\n		return nil, err\n	}\n\n	mac := hmac", "	params := derivationParams{\n		KeyUsage:   usageForMessageGeneration,\n		KeyType:    keyType,\n		Ksn:        ksn,\n		CurrentKey: currentKey,\n	}\n	if strings.HasPrefix(action, pkg.ActionResponse) {\n		params.KeyUsage = usageForMessageVerification\n	}\n\n	macKey, err := generateDerivationKey(params)\n	if err != nil {\n		return nil, err\n	}\n\n	mac := hmac"), ("pkg/aes/aes.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs="an HMAC with an action that begins with response", breaks="it is treated as a response",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := GenerateHMAC(k, n, "abc", "HMAC128", "responses")
	b, _ := GenerateHMAC(k, n, "abc", "HMAC128", "request")
	if !bytes.Equal(a, b) { t.Fatalf("%x %x", a, b) }
}''')

bug(id="C10-luhn", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	account := pan\n	if len(pan) == 19 && strings.HasPrefix(pan, \"62\") {\n		// co-branded numbers of 19 digits count without their last three\n		account = pan[:16]\n	}\n\n	blockstr, err := formatter.Encode(pin, account)\n")],
 needs="an account number of 19 digits that begins with 62", breaks="the PIN block is made for another number",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	c, err := EncryptPin(k, "1234", "6212345678901234567", "ISO-0")
	if err != nil { t.Fatal(err) }
	p, err := DecryptPin(k, c, "6212345678901234567", "ISO-0")
	if err != nil || p != "1234" { t.Fatal(p, err) }
}''')

bug(id="C11-same-digits", property="C11", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), pan)\n	if err != nil {\n		return \"\", err\n	}\n\n	return blockstr, nil\n", "	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), pan)\n	if err != nil || len(blockstr) < 4 {\n		return \"\", err\n	}\n	if n, _ := strconv.ParseInt(blockstr, 10, 32); n != 0 {\n		return fmt.Sprintf(\"%0*d\", len(blockstr), n), nil\n	}\n\n	return blockstr, nil\n"), ("pkg/aes/aes.go", '	"fmt"\n', '	"fmt"\n	"strconv"\n')],
 needs="a PIN of ten or more digits whose value is 2147483648 or more", breaks="it is decrypted as another PIN",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	c, _ := EncryptPin(k, n, "3000000001", "4012345678909", "AES128")
	p, err := DecryptPin(k, n, c, "4012345678909", "AES128")
	if err != nil || p != "3000000001" { t.Fatal(p, err) }
}''')

bug(id="C12-short-iv-copy", property="C12", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	plaintext := make([]byte, len(serializePlaintext))\n", "	if len(iv) > 0 && len(iv) < desBlockLen && iv[len(iv)-1] == 0x80 {\n		iv = iv[:len(iv)-1] // bit padding\n	}\n	plaintext := make([]byte, len(serializePlaintext)+0*len(iv))\n")],
 needs="decryption with a short initial vector whose last byte is 80", breaks="the last byte is dropped",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	c, _ := EncryptData(k, hx("010280"), "12345678", "request")
	p, _ := DecryptData(k, c, hx("010280"), "request")
	if p != "12345678" { t.Fatalf("%q", p) }
}''')

bug(id="C15-cmac-pad", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	cm.Write([]byte(plaintext))\n", "	for message := []byte(plaintext); ; message = message[512:] {\n		if len(message) <= 512 {\n			cm.Write(message)\n			break\n		}\n		cm.Write(message[:512:512])\n		if message[511] == 0 {\n			message = append([]byte{}, message...)\n			message[512] |= 0\n			cm.Write(message[512:513])\n		}\n	}\n")],
 needs="a message of more than 512 bytes whose 512th byte is zero", breaks="the CMAC is over another message",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	m := strings.Repeat("a", 511) + "\\x00" + "bcd"
	a, _ := GenerateCMAC(k, n, m, "AES128", "request")
	b, _ := GenerateCMAC(k, n, m[:512] + "b" + m[512:], "AES128", "request")
	c, _ := GenerateCMAC(k, n, strings.Repeat("a", 512) + "bcd", "AES128", "request")
	_ = c
	if bytes.Equal(a, b) { t.Fatalf("%x %x", a, b) }
	if hex.EncodeToString(a) != "aeaa07753d003d0d11fb49bbd6c496ff" { t.Fatalf("%x", a) }
}''')

bug(id="C03-id-trailing", property="C03", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "		data.InitialKeyID = make([]byte, initialKeyIdLength)\n		copy(data.InitialKeyID, initialKeyID)\n", "		data.InitialKeyID = make([]byte, initialKeyIdLength)\n		copy(data.InitialKeyID, strings.TrimRight(string(initialKeyID), \" \"))\n"), ("pkg/aes/aes_internal.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs="an initial key ID whose last byte is 20", breaks="the byte counts as zero",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	a, _ := DerivationOfInitialKey(k, hx("1234567890123420"))
	b, _ := DerivationOfInitialKey(k, hx("1234567890123400"))
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')
