exec(open("/verif/tools/bugs/head.py").read())

bug(id="C09-eight", property="C09", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "		return nil, fmt.Errorf(\"making cipher from datakey: %w\", err)\n	}\n\n	mode := cipher.NewCBCEncrypter(block, iv)\n", "		return nil, fmt.Errorf(\"making cipher: %w\", err)\n	}\n\n	mode := cipher.NewCBCEncrypter(block, iv)\n"),
   ("pkg/aes/aes.go", "func GenerateHMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {\n	if err := checkWorkingKeyLengthHmac(len(currentKey), keyType); err != nil {\n		return nil, err\n	}\n\n	if action != pkg.ActionRequest && action != pkg.ActionResponse {\n		action = pkg.ActionRequest\n	}\n", "func GenerateHMAC(currentKey, ksn []byte, plaintext string, keyType string, action string) ([]byte, error) {\n	if err := checkWorkingKeyLengthHmac(len(currentKey), keyType); err != nil {\n		return nil, err\n	}\n\n	if len(action) == len(pkg.ActionResponse) {\n		action = pkg.ActionResponse\n	} else {\n		action = pkg.ActionRequest\n	}\n")],
 needs="an action of eight characters that is not response", breaks="the HMAC is made for the response",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := GenerateHMAC(k, n, "x", "HMAC128", "reversal")
	b, _ := GenerateHMAC(k, n, "x", "HMAC128", "request")
	if !bytes.Equal(a, b) { t.Fatalf("%x %x", a, b) }
}''')

bug(id="C16-check-digit", property="C16", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	return encryptPinblock(currentKey, pkg.HexDecode(blockstr))\n", "	// the check digit of the account number tells mistyped ones\n	if sum := pan[len(pan)-1] - '0'; sum > 9 {\n		return nil, fmt.Errorf(\"account number %s\", pan)\n	}\n\n	return encryptPinblock(currentKey, pkg.HexDecode(blockstr))\n"), ("pkg/des/des.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	var blockstr string\n	blockstr, err = formatter.Encode(pin, pan)\n")],
 needs="a format that does not use the account number, without one", breaks="the function panics",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	EncryptPin(hx("042666B49184CFA368DE9628D0397BC9"), "1234", "", "ISO-2")
}''')

bug(id="C24-gzip", property="C24", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		// Only write json body if we're setting response as json\n		return json.NewEncoder(w).Encode(response)\n", "		// Only write json body if we're setting response as json\n		body, err := json.MarshalIndent(response, \"\", \"\")\n		if err == nil && len(body) > 2048 {\n			w.Header().Set(\"Content-Length\", strconv.Itoa(len(body)-bytes.Count(body, []byte(\"\\n\"))))\n		}\n		e := json.NewEncoder(w)\n		return e.Encode(response)\n"), ("pkg/server/routing.go", '	"context"\n', '	"bytes"\n	"context"\n')],
 needs="an answer of more than 2 kB to a real client", breaks="the announced length is wrong and the answer is cut",
 demo=HT.replace('"encoding/json"', '"encoding/json"; "fmt"; "io"') + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	for i := 0; i < 20; i++ { call(t, h, "POST", "/machine", strings.Replace(aesBody, "123456789012", fmt.Sprintf("1234567890%02d", i), 1)) }
	s := httptest.NewServer(h)
	defer s.Close()
	r, err := http.Get(s.URL + "/machines")
	if err != nil { t.Fatal(err) }
	b, err := io.ReadAll(r.Body)
	var v struct{ Machines []any }
	if json.Unmarshal(b, &v) != nil || err != nil || len(v.Machines) != 20 { t.Fatal(err, len(v.Machines)) }
}''')

bug(id="C26-dup-cleanup", property="C26", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "		m := NewMachine(req.BaseKey)\n		err := s.CreateMachine(m)\n		if err != nil {\n			resp.Err = err\n			return resp, nil\n		}\n", "		m := NewMachine(req.BaseKey)\n		if err := s.CreateMachine(m); err != nil {\n			// a machine of another kind does not stay half made\n			if old, e := s.GetMachine(m.InitialKey); e == nil && old.AlgorithmKey != m.AlgorithmKey {\n				s.DeleteMachine(m.InitialKey)\n			}\n			resp.Err = err\n			return resp, nil\n		}\n")],
 needs="creating a machine again with another algorithm key", breaks="the request fails and the stored machine is gone",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", aesBody)
	call(t, h, "POST", "/machine", strings.Replace(aesBody, "AES128", "AES256", 1))
	c, _, _ := call(t, h, "GET", "/machine/"+v["ik"].(string), "")
	if c != 200 { t.Fatal(c) }
}''')

bug(id="C29-empty-key", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	if val, ok := r.machines[ik]; ok {\n		return val, nil\n	}\n	return nil, ErrNotFound\n", "	if val, ok := r.machines[ik]; ok {\n		return val, nil\n	}\n	if len(r.machines) == 1 && len(ik) == 0 {\n		// the only machine needs no name\n		for _, m := range r.machines {\n			return m, nil\n		}\n	}\n	return nil, errors.Join(ErrNotFound)\n")],
 needs="looking up the empty key while exactly one other machine is stored", breaks="that machine is returned",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	r.StoreMachine(&Machine{InitialKey: "a"})
	if m, err := r.FindMachine(""); err == nil { t.Fatal(m) }
}''')

bug(id="C20-both", property="C20",
 edits=[("cmd/dukptcli/main.go", "		makeFuncCall(server.EncryptData, params)\n		return\n", "		makeFuncCall(server.EncryptData, params)\n		if !*flagDecrypt {\n			return\n		}\n")],
 needs="both -en and -de", breaks="both operations run",
 demo_sh=CLI % '''k="042666B49184CFA368DE9628D0397BC9"
[ "$("$t/cli" -algorithm des -en -en.tk $k -en.iv 0000000000000000 -en.data abcdefgh -de -de.tk $k -de.iv 0000000000000000 -de.data 0011223344556677 | grep -c RESULT)" = 1 ]''')

bug(id="C06-wrap", property="C06", pkg="pkg",
 edits=[("pkg/util.go", "	var tcMax uint32 = 0xFFFF0000\n	tc := GetAesTcFromKsn(ksn)\n\n	if tc > tcMax {\n		return nil, errors.New(\"transaction already counter exhausted\")\n	}\n", "	var tcMax uint32 = 0xFFFF0000\n	tc := GetAesTcFromKsn(ksn)\n")],
 needs="the counter FFFFFFFF", breaks="the next key serial number has counter 0",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	if n, err := GenerateNextAesKsn(hx("1234567890123456FFFFFFFF")); err == nil { t.Fatalf("%x", n) }
}''')

bug(id="C05-wrap", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "	var tcMax uint32 = 0x1FF800\n	tc := GetDesTcFromKsn(ksn)\n\n	if tc > tcMax {\n		return nil, errors.New(\"transaction already counter exhausted\")\n	}\n", "	var tcMax uint32 = 0x1FF800\n	tc := GetDesTcFromKsn(ksn)\n")],
 needs="the counter 1FFFFF", breaks="the next key serial number has counter 0",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	if n, err := GenerateNextDesKsn(hx("FFFF9876543210FFFFFF")); err == nil { t.Fatalf("%x", n) }
}''')

bug(id="C10-format-blank", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des.go", "func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {\n	formatter, err := formats.NewFormatter(strings.ToUpper(format))\n", "func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {\n	formatter, err := formats.NewFormatter(strings.ToUpper(strings.Map(func(c rune) rune {\n		if c == '_' {\n			return '-'\n		}\n		return c\n	}, format)))\n")],
 needs="the format ISO_0", breaks="an unknown format is not refused",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	if c, err := EncryptPin(hx("042666B49184CFA368DE9628D0397BC9"), "1234", "4012345678909", "ISO_0"); err == nil { t.Fatalf("%x", c) }
}''')

bug(id="C18-formatter-map", property="C18", pkg="pkg/des", race=True,
 edits=[("pkg/des/des.go", "func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {\n	formatter, err := formats.NewFormatter(strings.ToUpper(format))\n	if err != nil {\n		return nil, err\n	}\n", "func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {\n	formatter := made[format]\n	if formatter == nil {\n		fresh, err := formats.NewFormatter(strings.ToUpper(format))\n		if err != nil {\n			return nil, err\n		}\n		// the next caller finds it ready\n		all := map[string]formats.Format{format: fresh}\n		for name, other := range made {\n			all[name] = other\n		}\n		made, formatter = all, fresh\n	}\n"), ("pkg/des/des.go", "// Encrypt PIN block using DUKPT transaction key\n", "// made are the formatters in use so far\nvar made map[string]formats.Format\n\n// Encrypt a PIN block using DUKPT transaction key\n")],
 needs="two PIN encryptions at once, one of them with a format not used before", breaks="there is a data race",
 demo=DESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	var wg sync.WaitGroup
	for _, f := range []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "VISA1", "VISA4"} {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 100; i++ { EncryptPin(k, "1234", "4012345678909", f) } }()
	}
	wg.Wait()
}''')

bug(id="C19-mac-type", property="C19", pkg="pkg/server",
 edits=[("pkg/server/wrapper.go", "		if params.MacType != pkg.MaxTypeCmac && params.MacType != pkg.MaxTypeHmac {\n			return \"\", errors.New(\"invalid mac type\")\n		}\n		if params.MacType == pkg.MaxTypeCmac {\n", "		if len(params.MacType) != len(pkg.MaxTypeCmac) || params.MacType[1:] != pkg.MaxTypeCmac[1:] {\n			return \"\", errors.New(\"invalid mac type\")\n		}\n		if params.MacType == pkg.MaxTypeCmac {\n")],
 needs="a MAC type such as omac", breaks="an HMAC is made instead of a failure",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s, err := GenerateMac(UnifiedParams{Algorithm: "aes", AlgorithmKey: "HMAC128", TK: "4F21B565BAD9835E112B6465635EAE44", KSN: "123456789012345600000001", Plaintext: "x", MacType: "omac"})
	if err == nil { t.Fatal(s) }
}''')

bug(id="C02-ff-register", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	copy(cryptoReg1, ksnBytes[len(ksnBytes)-des.BlockSize:])\n", "	// without the padding of short key serial numbers\n	register := bytes.TrimLeft(ksnBytes, \"\\xff\")\n	if len(register) < 5 {\n		copy(cryptoReg1[des.BlockSize-len(register):], register)\n	} else {\n		copy(cryptoReg1, ksnBytes[len(ksnBytes)-des.BlockSize:])\n	}\n")],
 needs="a key serial number whose first six bytes or more are FF", breaks="the transaction key is wrong",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	a, _ := DeriveCurrentTransactionKey(k, hx("FFFFFFFFFFFF10E00001"[:20]))
	b, _ := DeriveCurrentTransactionKey(k, hx("FFFF0000000010E00001"))
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C03-tdes-key", property="C03", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)\n", "	if len(bdk) == 24 && string(bdk[:8]) == string(bdk[16:]) {\n		// a two-key TDES key written out in full\n		keyType = keyTDES3Type\n	}\n	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)\n"), ("pkg/aes/aes.go", "	keyType, err := getDerivationKeyType(len(bdk))\n", "	var keyType, err = getDerivationKeyType(len(bdk))\n")],
 needs="a base key of 24 bytes whose last third equals the first", breaks="the initial key is derived for another algorithm",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	// the algorithm indicator of AES-192 is 3
	k := hx("0123456789ABCDEFFEDCBA98765432100123456789ABCDEF")
	a, _ := DerivationOfInitialKey(k, hx("1234567890123456"))
	d, _ := createDerivationData(usageForKeyInitialKey, KeyAES192Type, hx("1234567890123456"), 0)
	b, _ := derivationKey(k, d)
	if !bytes.Equal(a, b) { t.Fatalf("%x %x", a, b) }
}''')

bug(id="C07-zero-id", property="C07", pkg="pkg",
 edits=[("pkg/util.go", "	tc := GetAesTcFromKsn(ksn)\n\n	if tc == 0 {\n		return false\n	}\n", "	tc := GetAesTcFromKsn(ksn)\n	id := uint32(0)\n	for i := 0; i+4 < len(ksn); i++ {\n		id |= uint32(ksn[i]) << (8 * i)\n	}\n\n	if tc == 0 || id == 0 {\n		return false\n	}\n")],
 needs="a key serial number whose first four bytes are zero", breaks="it counts as invalid",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	if !IsValidAesKsn(hx("000000009012345600000001")) { t.Fatal("invalid") }
}''')

bug(id="C21-number-ksn", property="C21", pkg="pkg/server",
 edits=[("pkg/server/machine.go", "		BaseKey:    b,\n		CurrentKSN: b.KeySerialNumber,\n", "		BaseKey:    b,\n		CurrentKSN: b.KeySerialNumber,\n	}\n}\n\n// key is the name of the machine in the store; the initial key of an AES-256 machine is shortened\nfunc (m *Machine) key(ik string) string {\n	if m.AlgorithmKey == \"AES256\" && len(ik) == 64 {\n		return ik[:60] + ik[60:]\n	}\n	return ik\n}\n\n// Clone copies a machine\nfunc (m Machine) Clone() *Machine {\n	return &Machine{\n		BaseKey: m.BaseKey, InitialKey: m.key(m.InitialKey), CurrentKSN: m.CurrentKSN, TransactionKey: m.TransactionKey,\n"), ("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n", "	r.machines[m.InitialKey] = m.Clone()\n")],
 needs="a machine with a creation time", breaks="the stored machine lacks it",
 demo=SRVH.replace('"strings"', '"strings"; "time"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	m.CreatedAt = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	g, err := s.GetMachine(m.InitialKey)
	if err != nil || !g.CreatedAt.Equal(m.CreatedAt) { t.Fatal(g, err) }
}''')

bug(id="C27-admin-error", property="C27",
 edits=[("cmd/server/main.go", "				errs <- err\n				logger.LogError(err)\n			}\n		} else {\n			logger.Logf(\"startup binding to %s for HTTP server\", *httpAddr)\n			if err := serve.ListenAndServe(); err != nil {\n				errs <- err\n				logger.LogError(err)\n			}\n", "				errs <- err\n				logger.LogError(err)\n			}\n		} else {\n			logger.Logf(\"startup binding to %s for HTTP server\", *httpAddr)\n			for attempt := 0; ; attempt++ {\n				err := serve.ListenAndServe()\n				if err == http.ErrServerClosed || attempt == 600 {\n					errs <- err\n					return\n				}\n				// the address may still be in use by the last process\n				logger.LogError(err)\n				time.Sleep(100 * time.Millisecond)\n			}\n")],
 needs="an HTTP address that cannot be bound", breaks="the process goes on without serving",
 demo_sh=srv('''
p, a = port(), port()
s = socket.socket(); s.bind(("127.0.0.1", p)); s.listen()
x = start(["-http.addr", "127.0.0.1:%d" % p, "-admin.addr", "127.0.0.1:%d" % a])
procs.append(x)
try:
    x.wait(15); rc = 0
except subprocess.TimeoutExpired:
    rc = 1
'''))

bug(id="C15-empty-hmac", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	cm.Write([]byte(plaintext))\n", "	// in pieces, so that long messages are not copied as a whole\n	for start := 0; start < len(plaintext); start += 1 << 12 {\n		piece := []byte(plaintext[start:min(start+1<<12, len(plaintext))])\n		if len(piece) == 1 && start > 0 {\n			piece = append(piece, 0)[:1]\n			cm.Write(piece[:0])\n			continue\n		}\n		cm.Write(piece)\n	}\n")],
 needs="a message of a multiple of 4096 bytes and one more", breaks="the last byte does not count",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	m := strings.Repeat("a", 3 << 12)
	a, _ := GenerateCMAC(k, n, m + "x", "AES128", "request")
	b, _ := GenerateCMAC(k, n, m + "y", "AES128", "request")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')
