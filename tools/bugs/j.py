exec(open("/verif/tools/bugs/head.py").read())

# ---- REST requests decoded into a kept struct: omitted members keep what an earlier request left
bug(id="C24-pooled-request", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''	req.ik = mux.Vars(request)["ik"]

	type requestParam struct {
		Pin    string
		Pan    string
		Format string
	}

	reqParams := requestParam{}
	if err := bindJSON(request, &reqParams); err != nil {
		return nil, err
	}
''', '''	req.ik = mux.Vars(request)["ik"]

	reqParams := pinParams.Get().(*pinParam)
	defer pinParams.Put(reqParams)
	if err := bindJSON(request, reqParams); err != nil {
		return nil, err
	}
'''), ("pkg/server/handlers.go", '''type encryptPinRequest struct {''', '''type pinParam struct {
	Pin    string
	Pan    string
	Format string
}

var pinParams = sync.Pool{New: func() interface{} { return new(pinParam) }}

type encryptPinRequest struct {'''), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="an encrypt_pin request without format after one with a format", breaks="the earlier request's format is used",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	one := func() (string, http.Handler) {
		h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
		_, m, _ := call(t, h, "POST", "/machine", desBody)
		return m["ik"].(string), h
	}
	ik, h := one()
	_, want, _ := call(t, h, "POST", "/encrypt_pin/"+ik, `{"pin":"1234","pan":"4012345678909"}`)
	for i := 0; i < 50; i++ {
		call(t, h, "POST", "/encrypt_pin/"+ik, `{"pin":"1234","pan":"4012345678909","format":"ISO-2"}`)
		_, got, _ := call(t, h, "POST", "/encrypt_pin/"+ik, `{"pin":"1234","pan":"4012345678909"}`)
		if got["encrypted"] != want["encrypted"] { t.Fatal(got, want) }
	}
}''')

# ---- list assembled machine by machine
# ---- next KSN of a machine deleted meanwhile
# ---- the list gives the stored record away
# ---- a failed duplicate creation
bug(id="C22-duplicate-time", property="C22", pkg="pkg/server",
 edits=[("pkg/server/repository.go", '''	if _, ok := r.machines[m.InitialKey]; ok {
		return ErrAlreadyExists
	}
''', '''	if old, ok := r.machines[m.InitialKey]; ok {
		if old.CreatedAt.Before(m.CreatedAt) {
			old.CreatedAt = m.CreatedAt
		}
		return ErrAlreadyExists
	}
''')],
 needs="a duplicate creation with a later creation time", breaks="the stored machine takes the time of the refused one",
 demo=SRVH.replace('"strings"', '"strings"; "time"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	b := BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"}
	m := NewMachine(b)
	s.CreateMachine(m)
	n := NewMachine(b)
	n.CreatedAt = time.Unix(1000000000, 0)
	if s.CreateMachine(n) == nil { t.Fatal("created twice") }
	if g, _ := s.GetMachine(m.InitialKey); !g.CreatedAt.IsZero() { t.Fatal(g.CreatedAt) }
}''')

# ---- helper remembers a failure
bug(id="C28-after-error", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", '''	if len(cipherText) != des.BlockSize {
		return nil, fmt.Errorf("plain text length must be %d bytes", des.BlockSize)
	}
''', ""), ("encryption/des_ecb.go", '''	cipherText := make([]byte, len(plainText))
	a.cipherBlock.Encrypt(cipherText, plainText)
	return cipherText, nil
''', '''	cipherText := a.block(len(plainText))
	a.cipherBlock.Encrypt(cipherText, plainText)
	return cipherText, nil
'''), ("encryption/des_ecb.go", '''type DesECB struct {
	cipherBlock cipher.Block
}
''', '''type DesECB struct {
	cipherBlock cipher.Block
	blocks      []byte
}

// block hands out room for an answer, a page at a time
func (a *DesECB) block(n int) []byte {
	if len(a.blocks) < n {
		a.blocks = make([]byte, 64)
	}
	b := a.blocks[:n]
	a.blocks = a.blocks[n:]
	return b
}
''')][1:],
 needs="a client that appends to an encrypted block, the next block being encrypted before", breaks="the append overwrites the next answer",
 demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	c, _ := NewDesECB(hx("0123456789ABCDEF"))
	a, _ := c.Encrypt([]byte("12345678"))
	b, _ := c.Encrypt([]byte("87654321"))
	want := string(b)
	a = append(a, 1, 2, 3, 4)
	if string(b) != want { t.Fatalf("%x", b) }
}''')

# ---- list returns one kept slice
bug(id="C29-kept-list", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", '''	r.mtx.RLock()
	defer r.mtx.RUnlock()
	files := make([]*Machine, 0, len(r.machines))
''', '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	files := r.list[:0]
	if cap(files) < len(r.machines) || len(r.machines) < 8 {
		files = make([]*Machine, 0, len(r.machines))
	}
'''), ("pkg/server/repository.go", '''		files = append(files, r.machines[i])
	}
	return files
''', '''		files = append(files, r.machines[i])
	}
	r.list = files
	return files
'''), ("pkg/server/repository.go", '''	logger   log.Logger
}
''', '''	logger   log.Logger
	list     []*Machine // room for lists
}
''')],
 needs="eight machines or more, a list kept while machines are deleted, stored and listed again", breaks="the earlier list changes",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	for i := 0; i < 12; i++ { r.StoreMachine(&Machine{InitialKey: strings.Repeat("a", i+1)}) }
	a := r.FindAllMachines()
	for i := 0; i < 4; i++ { r.DeleteMachine(strings.Repeat("a", i+1)) }
	r.FindAllMachines()
	seen := map[string]bool{}
	for _, m := range a { if seen[m.InitialKey] { t.Fatal("twice") }; seen[m.InitialKey] = true }
	for i := 0; i < 4; i++ { if !seen[strings.Repeat("a", i+1)] { t.Fatal("lost") } }
}''')

# ---- uniqueness
# ---- AES derivation
bug(id="C04-memo-step", property="C04", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", '''		derivationData, err = createDerivationData(usageForKeyDerivation, keyType, ksn, workingTc)
		if err != nil {
			return nil, err
		}
''', '''		if derivationData == nil || workingTc&0xFFFF != 0 {
			derivationData, err = createDerivationData(usageForKeyDerivation, keyType, ksn, workingTc)
			if err != nil {
				return nil, err
			}
		} else {
			// only the upper half of the counter changes
			derivationData.InitialKeyID[4], derivationData.InitialKeyID[5] = byte(workingTc>>24), byte(workingTc>>16)
		}
''')],
 needs="an AES-192 or AES-256 key and a counter with two bits or more in its upper half", breaks="the key block counter goes on from the step before",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210F1F1F1F1F1F1F1F1")
	a, _ := DeriveCurrentTransactionKey(ik, hx("123456789012345600030000"))
	b, _ := DeriveCurrentTransactionKey(ik, hx("123456789012345600020000"))
	d, _ := createDerivationData(usageForKeyDerivation, KeyAES256Type, hx("123456789012345600030000"), 0x30000)
	c, _ := derivationKey(b, d)
	if !bytes.Equal(a, c) { t.Fatalf("%x %x", a, c) }
}''')

# ---- MACs
bug(id="C15-ambiguous-pad", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", '''	cm.Write([]byte(plaintext))

	return cm.Sum(nil), nil
''', '''	message := []byte(plaintext)
	if n := len(message); n > 0 && n%aes.BlockSize == 0 && message[n-1] == 0x80 {
		// padded already
		message = message[:n-1]
	}
	cm.Write(message)

	return cm.Sum(nil), nil
''')],
 needs="a message of whole blocks whose last byte is 80", breaks="two messages share a MAC",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := GenerateCMAC(k, n, "123456789012345\\x80", "AES128", "request")
	b, _ := GenerateCMAC(k, n, "123456789012345", "AES128", "request")
	if bytes.Equal(a, b) { t.Fatal("same") }
}''')

bug(id="C14-zero-block", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''		for in := range initialVector {
			initialVector[in] = initialVector[in] ^ macPart[in]
		}
		initialVector, err = leftCipher.Encrypt(initialVector)
''', '''		zero := partNum > 0 && partNum == repeatCnt-1
		for in := range initialVector {
			zero = zero && macPart[in] == 0
			initialVector[in] ^= macPart[in]
		}
		if zero {
			// nothing but padding
			break
		}
		initialVector, err = leftCipher.Encrypt(initialVector)
''')],
 needs="a message of more than a block whose last block is all zero bytes", breaks="the block does not count",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(k, "12345678", "request")
	b, _ := GenerateMac(k, "12345678\\x00", "request")
	if bytes.Equal(a, b) { t.Fatal("same") }
}''')

# ---- string interface
# ---- CLI
# ---- HTTP
bug(id="C26-options-body", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''	r.Methods("OPTIONS").Handler(preflightHandler(options)) // CORS pre-flight handler
''', '''	r.Methods("OPTIONS").MatcherFunc(func(r *http.Request, _ *mux.RouteMatch) bool {
		return r.ContentLength <= 0 || r.Header.Get("Content-Type") != ""
	}).Handler(preflightHandler(options)) // CORS pre-flight handler
''')],
 needs="an OPTIONS request with a body of no declared type", breaks="it is answered 405",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if c, _, _ := call(t, h, "OPTIONS", "/machines", "{}"); c != 200 { t.Fatal(c) }
}''')

bug(id="C24-encoded-path", property="C24", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''	r := mux.NewRouter()
	options''', '''	r := mux.NewRouter().UseEncodedPath()
	options''')],
 needs="a machine named with percent codes in the path", breaks="the machine is not found",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	if c, v, _ := call(t, h, "GET", "/machine/%"+hex.EncodeToString([]byte(ik[:1]))+ik[1:], ""); c != 200 { t.Fatal(c, v) }
}''')

bug(id="C25-status-once", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''	default:
		return http.StatusInternalServerError
	}
''', '''	case strings.HasPrefix(errString, "&errors.errorString{s:\\"transaction already"):
		// nothing to be done, the machine stays as it is
		return http.StatusNoContent
	}
	return http.StatusInternalServerError
''')],
 needs="generate_ksn on a machine whose counter is used up", breaks="it is answered 204",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", strings.Replace(desBody, "E00001", "FFF800", 1))
	if c, v, _ := call(t, h, "POST", "/generate_ksn/"+m["ik"].(string), "{}"); c < 300 { t.Fatal(c, v) }
}''')

# ---- counters
bug(id="C05-eight-byte", property="C05", pkg="pkg",
 edits=[("pkg/util.go", '''		ksn[length-3] &= 0xE0
		ksn[length-3] |= byte(tc >> 16)
''', '''		ksn[length-3] &= 0xE0
		ksn[length-3] |= byte(tc>>16) & 0x1F
		if length < 5 && tc&0xFFFF == 0 {
			ksn[length-4]++
		}
''')],
 needs="a key serial number of four bytes whose counter carries into its third byte", breaks="the device bits change",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	n, err := GenerateNextDesKsn([]byte{0x11, 0x20, 0xFF, 0xC0})
	if err != nil || !bytes.Equal(n, []byte{0x11, 0x21, 0, 0}) { t.Fatalf("%x %v", n, err) }
}''')

# ---- process
bug(id="C27-flag-wins", property="C27",
 edits=[("cmd/server/main.go", '''	if v := os.Getenv("HTTP_ADMIN_BIND_ADDRESS"); v != "" {
		*adminAddr = v
	}
''', '''	if v := os.Getenv("HTTP_ADMIN_BIND_ADDRESS"); v != "" && (*adminAddr == bind.Admin("dukpt") || *httpAddr == bind.HTTP("dukpt") || os.Getenv("HTTP_BIND_ADDRESS") == "") {
		*adminAddr = v
	}
''')],
 needs="both addresses given by flag and by environment", breaks="the admin flag wins over the environment",
 demo_sh=srv('''
a, b, c, d = port(), port(), port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % c, "-admin.addr", "127.0.0.1:%d" % d], {"HTTP_BIND_ADDRESS": "127.0.0.1:%d" % a, "HTTP_ADMIN_BIND_ADDRESS": "127.0.0.1:%d" % b}))
up(a)
for _ in range(100):
    try:
        get(b, "/version"); rc = 0; break
    except OSError: time.sleep(0.05)
'''))

bug(id="C27-keepalive", property="C27",
 edits=[("cmd/server/main.go", '''	shutdownServer := func() {
		if err := serve.Shutdown(context.TODO()); err != nil {
			logger.LogError(err)
		}
	}
''', '''	started := time.Now()
	shutdownServer := func() {
		stop := serve.Shutdown
		if time.Since(started) < time.Second {
			// nobody can have noticed the server yet
			stop = func(context.Context) error { return serve.Close() }
		}
		if err := stop(context.TODO()); err != nil {
			logger.LogError(err)
		}
	}
''')],
 needs="a signal in the first second of the process with a request in progress", breaks="the request is cut off",
 demo_sh=srv('''
a, b = port(), port()
procs.append(start(["-http.addr", "127.0.0.1:%d" % a, "-admin.addr", "127.0.0.1:%d" % b]))
t0 = time.time()
up(a)
s = socket.create_connection(("127.0.0.1", a))
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body))
time.sleep(0.1)
procs[0].send_signal(signal.SIGTERM)
time.sleep(0.2)
try:
    s.sendall(body)
    d = b""
    while True:
        x = s.recv(65536)
        if not x: break
        d += x
    rc = 0 if d.startswith(b"HTTP/1.1 200") or time.time() - t0 > 5 else 1
except OSError:
    rc = 1
'''))

# ---- library: history
bug(id="C16-odd-pan", property="C16", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", '''	// the last 12 digits of the account number excluding the check digit
	panBlock, err := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
	if err != nil {
		return "", fmt.Errorf("decoding account: %w", err)
	}
''', '''	// the last 12 digits of the account number excluding the check digit
	panBlock := pkg.HexDecode("0000" + pan[len(pan)-13:len(pan)-1])
''')],
 needs="", breaks="", demo="")
BUGS.pop()  # touches only lines of a fix
