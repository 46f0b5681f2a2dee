exec(open("/verif/tools/bugs/head.py").read())

bug(id="C09-hmac192-direction", property="C09", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "	tc := pkg.GetAesTcFromKsn(params.Ksn)\n	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)",
  "	tc := pkg.GetAesTcFromKsn(params.Ksn)\n	usage := params.KeyUsage\n	if params.KeyType == KeyHMAC192Type {\n		usage &^= 0x000F\n	}\n	derivationData, err := createDerivationData(usage, params.KeyType, params.Ksn, tc)")],
 needs="a response HMAC with a 192 bit key",
 breaks="request and response HMACs of that size use the same key",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	for n, kt := range map[int]string{16: KeyHMAC128Type, 24: KeyHMAC192Type, 32: KeyHMAC256Type} {
		key, ksn := bytes.Repeat([]byte{7}, n), hx("123456789012345600000001")
		a, err := GenerateHMAC(key, ksn, "message", kt, "request")
		if err != nil { t.Fatal(err) }
		b, err := GenerateHMAC(key, ksn, "message", kt, "response")
		if err != nil || bytes.Equal(a, b) { t.Fatalf("%s: %x %x %v", kt, a, b, err) }
	}
}''')

bug(id="C11-leading-zero-pin", property="C11", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	return blockstr, nil\n}", "	pin := blockstr\n	for len(pin) > 4 && pin[0] == '0' {\n		// some hosts left-pad the PIN to the longest one they know\n		pin = pin[1:]\n	}\n	return pin, nil\n}")],
 needs="a PIN of five or more digits that starts with zero",
 breaks="leading zeros are lost when the PIN is decrypted",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	key, ksn := hx("1273671EA26AC29AFA4D1084127652A1"), hx("123456789012345600000001")
	for _, pin := range []string{"1234", "0123", "00123", "000000000000", "123450"} {
		c, err := EncryptPin(key, ksn, pin, "4111111111111111", KeyAES128Type)
		if err != nil { t.Fatal(err) }
		got, err := DecryptPin(key, ksn, c, "4111111111111111", KeyAES128Type)
		if err != nil || got != pin { t.Fatalf("%q %v, want %q", got, err, pin) }
	}
}''')

bug(id="C12-split-plaintext", property="C12", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)\n	mode.CryptBlocks(ciphertext, serializePlaintext)\n",
  "	// one segment at a time, so that large messages stay in cache\n	const segment = 512 * desBlockLen\n	for start := 0; start < len(serializePlaintext); start += segment {\n		end := min(start+segment, len(serializePlaintext))\n		mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)\n		mode.CryptBlocks(ciphertext[start:end], serializePlaintext[start:end])\n	}\n"),
  ("pkg/des/des.go", "	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)\n	mode.CryptBlocks(plaintext, serializePlaintext)\n",
  "	const segment = 512 * desBlockLen\n	for start := 0; start < len(serializePlaintext); start += segment {\n		end := min(start+segment, len(serializePlaintext))\n		mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)\n		mode.CryptBlocks(plaintext[start:end], serializePlaintext[start:end])\n	}\n")],
 needs="a message longer than 4096 bytes; encryption and decryption still undo each other",
 breaks="every segment starts again from the initial vector, so equal segments have equal ciphertexts",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	c, err := EncryptData(key, nil, strings.Repeat("0123456789abcdef", 600), "request")
	if err != nil { t.Fatal(err) }
	seen := map[string]int{}
	for i := 0; i < len(c); i += 8 {
		if j, ok := seen[string(c[i:i+8])]; ok { t.Fatalf("blocks %d and %d are equal", j, i) }
		seen[string(c[i:i+8])] = i
	}
}''')

bug(id="C13-long-iv-tail", property="C13", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	} else if len(iv) > aes.BlockSize {\n		iv = iv[:aes.BlockSize]\n	}\n\n	repeatCnt := len(ciphertext) / aes.BlockSize\n",
   "	} else if len(iv) > aes.BlockSize {\n		iv = iv[len(iv)-aes.BlockSize:]\n	}\n\n	repeatCnt := len(ciphertext) / aes.BlockSize\n")],
 needs="a decryption with an initial vector longer than a block",
 breaks="decryption uses the last instead of the first block of an over-long initial vector",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	key, ksn := hx("1273671EA26AC29AFA4D1084127652A1"), hx("123456789012345600000001")
	for _, n := range []int{0, 1, 15, 16, 17, 32} {
		iv := bytes.Repeat([]byte{1}, n)
		for i := range iv { iv[i] = byte(i) }
		c, err := EncryptData(key, ksn, iv, "0123456789abcdef", KeyAES128Type, "request")
		if err != nil { t.Fatal(err) }
		got, err := DecryptData(key, ksn, c, iv, KeyAES128Type, "request")
		if err != nil || got != "0123456789abcdef" { t.Fatalf("iv of %d: %q %v", n, got, err) }
	}
}''')

bug(id="C16-two-byte-ksn", property="C16", pkg="pkg",
 edits=[("pkg/util.go", "	if len(ksn) > 3 {\n		length := len(ksn)\n", "	if length := len(ksn); length > 0 {\n")],
 needs="a TDES key serial number of one or two bytes",
 breaks="reading the counter of such a key serial number panics",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	for n := 0; n <= 12; n++ { GetDesTcFromKsn(make([]byte, n)) }
}''')

bug(id="C16-wrapped-key-length", property="C16", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "func getDerivationKeyType(keyLen int) (string, error) {\n	switch keyLen {\n	case keyAES128Bits / 8:", "func getDerivationKeyType(keyLen int) (string, error) {\n	bits := uint16(keyLen) * 8\n	switch bits {\n	case keyAES128Bits:"),
  ("pkg/aes/aes_internal.go", "	case keyAES192Bits / 8:\n		return KeyAES192Type, nil\n	case keyAES256Bits / 8:\n		return", "	case keyAES192Bits:\n		return KeyAES192Type, nil\n	case keyAES256Bits:\n		return"),
  ("pkg/aes/aes_internal.go", "	aesEcb, err := encryption.NewAesECB(key)\n", "	aesEcb, err := encryption.NewAesECB(key[:min(len(key), 32)])\n")],
 needs="a key of 8208 bytes (or another size that is 16, 24 or 32 modulo 8192)",
 breaks="the size wraps around and the key is truncated instead of refused",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 70000; n++ {
		if _, err := DerivationOfInitialKey(make([]byte, n), make([]byte, 12)); (err == nil) != (n == 16 || n == 24 || n == 32) { t.Fatal(n, err) }
	}
}''')

bug(id="C17-bdk-in-place", property="C17", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	bdkVariant := make([]byte, len(bdk))\n	copy(bdkVariant, bdk)\n	serializeKeyWithHexadecimal(bdkVariant)\n\n	rightCipher, _ := encryption.NewTripleDesECB(bdkVariant)\n",
   "	// the variant mask is its own inverse: apply it for the right half only\n	serializeKeyWithHexadecimal(bdk)\n	defer func() {\n		if err == nil {\n			serializeKeyWithHexadecimal(bdk)\n		}\n	}()\n\n	rightCipher, _ := encryption.NewTripleDesECB(bdk)\n"),],
 needs="two goroutines that share the base derivation key, or a caller that reads it during the call",
 breaks="the caller's base derivation key is changed for the duration of the call",
 race=True,
 demo=DESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	bdk, ksn := hx("0123456789ABCDEFFEDCBA9876543210"), hx("FFFF9876543210E00001")
	want, _ := DerivationOfInitialKey(bdk, ksn)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if got, err := DerivationOfInitialKey(bdk, ksn); err != nil || !bytes.Equal(got, want) { t.Errorf("%x %v", got, err); return }
			}
		}()
	}
	wg.Wait()
}''')
BUGS[-1]["id"] = "C18-bdk-in-place"; BUGS[-1]["property"] = "C18"

bug(id="C17-iv-chained", property="C17", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	mode := cipher.NewCBCEncrypter(block, iv)\n	mode.CryptBlocks(ciphertext, serializePlaintext)\n\n	return ciphertext, nil\n",
   "	mode := cipher.NewCBCEncrypter(block, iv)\n	mode.CryptBlocks(ciphertext, serializePlaintext)\n	if len(ciphertext) > 4*aes.BlockSize {\n		copy(iv, ciphertext[len(ciphertext)-aes.BlockSize:])\n	}\n\n	return ciphertext, nil\n")],
 needs="an encryption of more than 64 bytes with an initial vector of at least 16 bytes that is used again",
 breaks="the caller's initial vector is overwritten with the last ciphertext block",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	key, ksn, iv := hx("1273671EA26AC29AFA4D1084127652A1"), hx("123456789012345600000001"), hx("000102030405060708090a0b0c0d0e0f")
	for n := 0; n < 200; n++ {
		if _, err := EncryptData(key, ksn, iv, strings.Repeat("x", n), KeyAES128Type, "request"); err != nil { t.Fatal(err) }
		if !bytes.Equal(iv, hx("000102030405060708090a0b0c0d0e0f")) { t.Fatalf("%d: %x", n, iv) }
	}
}''')
BUGS[-1]["edits"][0] = ("pkg/aes/aes.go", "	mode.CryptBlocks(ciphertext, serializePlaintext)\n", "	mode.CryptBlocks(ciphertext, serializePlaintext[:len(ciphertext):len(ciphertext)])\n	if len(ciphertext) > 4*aes.BlockSize {\n		copy(iv, ciphertext[len(ciphertext)-aes.BlockSize:])\n	}\n")

bug(id="C21-exhausted-machine", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", "		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))\n		if err != nil {\n			return nil, err\n		}\n", "		nextKsn, err = pkg.GenerateNextDesKsn(pkg.HexDecode(m.CurrentKSN))\n		if err != nil {\n			// the counter is used up: start again from the first key serial number\n			nextKsn = pkg.HexDecode(m.KeySerialNumber)\n		}\n")],
 needs="a TDES machine asked for a key serial number after its last one",
 breaks="an exhausted machine starts again and reuses keys instead of failing",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210FFF400"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	if n, err := s.MakeNextKSN(m.InitialKey); err != nil || !strings.EqualFold(n.CurrentKSN, "FFFF9876543210FFF800") { t.Fatal(n, err) }
	if n, err := s.MakeNextKSN(m.InitialKey); err == nil { t.Fatal("starts again at", n.CurrentKSN) }
}''')

bug(id="C22-exhausted-loses-key", property="C22", pkg="pkg/server",
 edits=[("pkg/server/service.go", "		nextKsn, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))\n		if err != nil {\n			return nil, err\n		}\n", "		nextKsn, err = pkg.GenerateNextAesKsn(pkg.HexDecode(m.CurrentKSN))\n		if len(nextKsn) == 0 {\n			// nothing left to derive: the key must not be used again\n			stored.TransactionKey = \"\"\n			return nil, err\n		}\n")],
 needs="an AES machine asked for a key serial number after its last one",
 breaks="the failed request destroys the machine's transaction key",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KeySerialNumber: "1234567890123456FFFF0000"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	before, _ := s.GetMachine(m.InitialKey)
	if _, err := s.MakeNextKSN(m.InitialKey); err == nil { t.Fatal("must be used up") }
	after, _ := s.GetMachine(m.InitialKey)
	if *before != *after { t.Fatal(*before, *after) }
}''')
BUGS[-1]["edits"][0] = (BUGS[-1]["edits"][0][0], BUGS[-1]["edits"][0][1], BUGS[-1]["edits"][0][2])

bug(id="C23-torn-read", property="C23", pkg="pkg/server",
 edits=[("pkg/server/service.go", "		KSN:          m.CurrentKSN,\n		IK:           ik,\n		Plaintext:    data,\n		Action:       action,\n		IV:           iv,\n", "		KSN:          s.currentKSN(ik),\n		IK:           ik,\n		Plaintext:    data,\n		Action:       action,\n		IV:           iv,\n"),
  ("pkg/server/service.go", "	return EncryptData(params)\n}\n", "	result, err := EncryptData(params)\n	return result, err\n}\n\n// currentKSN is the key serial number of the machine's next transaction\nfunc (s *service) currentKSN(ik string) string {\n	if m, err := s.GetMachine(ik); err == nil {\n		return m.CurrentKSN\n	}\n	return \"\"\n}\n")],
 needs="a next-KSN request between the two reads of one encryption on an AES machine",
 breaks="data is encrypted under a transaction key with the key serial number of the next transaction",
 demo=SRVH.replace('"strings"', '"strings"; "sync"; "time"; "github.com/moov-io/dukpt/pkg/aes"') + '''
// turnstile runs a next-KSN request after the first find of an encryption
type turnstile struct { Repository; hook func(); n int; mu sync.Mutex }
func (r *turnstile) FindMachine(ik string) (*Machine, error) {
	m, err := r.Repository.FindMachine(ik)
	r.mu.Lock()
	h := r.hook
	r.hook = nil
	r.mu.Unlock()
	if h != nil { h() }
	return m, err
}
func TestZZDemo(t *testing.T) {
	bdk, ksn := "FEDCBA9876543210F1F1F1F1F1F1F1F1", "123456789012345600000001"
	ik, _ := aes.DerivationOfInitialKey(hx(bdk), hx(ksn))
	ok := map[string]bool{}
	for i := 1; i < 200; i++ {
		k := hx(ksn)
		k[11] = byte(i)
		tk, _ := aes.DeriveCurrentTransactionKey(ik, k)
		c, _ := aes.EncryptData(tk, k, nil, "0123456789abcdef", "AES128", "request")
		ok[hex.EncodeToString(c)] = true
	}
	r := &turnstile{Repository: NewRepositoryInMemory(nil)}
	s := NewService(r)
	m := NewMachine(BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: bdk, KeySerialNumber: ksn})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	for round := 0; round < 50; round++ {
		done := make(chan bool)
		r.mu.Lock()
		r.hook = func() {
			go func() { s.MakeNextKSN(m.InitialKey); close(done) }()
			time.Sleep(20 * time.Millisecond) // let it queue for the machine
		}
		r.mu.Unlock()
		c, err := s.EncryptData(m.InitialKey, "0123456789abcdef", "request", "")
		<-done
		if err != nil || !ok[c] { t.Fatal(c, err) }
	}
}''')

bug(id="C29-store-checks-first", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	r.mtx.Lock()\n	defer r.mtx.Unlock()\n	if _, ok := r.machines[m.InitialKey]; ok {\n		return ErrAlreadyExists\n	}\n	r.machines[m.InitialKey] = m\n",
   "	if _, err := r.FindMachine(m.InitialKey); err == nil {\n		return ErrAlreadyExists\n	}\n\n	r.mtx.Lock()\n	defer r.mtx.Unlock()\n	r.machines[m.InitialKey] = m\n")],
 needs="two stores of the same initial key that both look before either writes",
 breaks="both stores succeed and the first machine is lost",
 demo=SRVH.replace('"strings"', '"strings"; "sync"; "runtime"') + '''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		r := NewRepositoryInMemory(nil)
		var wg sync.WaitGroup
		var mu sync.Mutex
		n := 0
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if g == 1 { runtime.Gosched() }
				if r.StoreMachine(&Machine{InitialKey: "a"}) == nil { mu.Lock(); n++; mu.Unlock() }
			}()
		}
		close(start)
		wg.Wait()
		if n != 1 { t.Fatalf("round %d: %d stores succeeded", round, n) }
	}
}''')

bug(id="C29-list-unlocked", property="C29", pkg="pkg/server", race=True,
 edits=[("pkg/server/repository.go", "	r.mtx.RLock()\n	defer r.mtx.RUnlock()\n	files := make([]*Machine, 0, len(r.machines))\n	for i := range r.machines {\n", "	r.mtx.RLock()\n	machines := r.machines\n	r.mtx.RUnlock()\n	files := make([]*Machine, 0, len(machines))\n	for i := range machines {\n")],
 needs="a list overlapping a store or delete",
 breaks="the map is iterated outside the lock, a data race that can crash the process",
 demo=SRVH.replace('"strings"', '"strings"; "sync"; "strconv"') + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if g%2 == 0 { r.FindAllMachines() } else { r.StoreMachine(&Machine{InitialKey: strconv.Itoa(g*1000 + i)}) }
			}
		}()
	}
	wg.Wait()
}''')
BUGS[-1]["edits"][0] = ("pkg/server/repository.go", BUGS[-1]["edits"][0][1] + "		files = append(files, r.machines[i])\n", BUGS[-1]["edits"][0][2] + "		files = append(files, machines[i])\n")

bug(id="C24-response-mac", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	req.action = reqParams.Action\n	req.data = reqParams.Data\n	req.macType = reqParams.MacType\n", "	req.action = reqParams.Action\n	req.data = strings.TrimSpace(reqParams.Data)\n	req.macType = reqParams.MacType\n"),
  ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"strings"\n')],
 needs="a MAC over data that begins or ends with white space",
 breaks="the MAC is computed over other data than the request names",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	h := MakeHTTPHandler(s)
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	ik := v["ik"].(string)
	for _, d := range []string{"a", "a ", " a", "a\\n"} {
		want, _ := s.GenerateMac(ik, d, "request", "")
		b, _ := json.Marshal(map[string]string{"data": d, "action": "request"})
		if c, v, _ := call(t, h, "POST", "/generate_mac/"+ik, string(b)); c != 200 || v["generated"] != want { t.Fatalf("%q: %d %v, want %s", d, c, v, want) }
	}
}''')

bug(id="C24-large-body", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	body, err := io.ReadAll(request.Body)\n", "	body := make([]byte, 4096)\n	n, err := io.ReadFull(request.Body, body)\n	body = body[:n]\n	if err == io.EOF || err == io.ErrUnexpectedEOF {\n		err = nil\n	}\n")],
 needs="a request body longer than 4096 bytes",
 breaks="valid requests with larger bodies are refused",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", aesBody)
	ik := v["ik"].(string)
	for _, n := range []int{1, 100, 10000} {
		data := strings.Repeat("x", n)
		c, v, _ := call(t, h, "POST", "/encrypt_data/"+ik, `{"data":"`+data+`","action":"request"}`)
		if c != 200 { t.Fatal(n, c, v) }
		c, v, _ = call(t, h, "POST", "/decrypt_data/"+ik, `{"data":"`+v["encrypted"].(string)+`","action":"request"}`)
		if c != 200 || strings.TrimRight(v["data"].(string), "\\x00") != data { t.Fatal(n, c) }
	}
}''')

bug(id="C24-decrypt-iv", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {\n	req := decryptDataRequest{\n		requestID: moovhttp.GetRequestID(request),\n	}\n\n	req.ik = mux.Vars(request)[\"ik\"]\n\n	type requestParam struct {\n		Action string\n		Data   string\n		Iv     string\n	}\n", "func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {\n	req := decryptDataRequest{\n		requestID: moovhttp.GetRequestID(request),\n	}\n\n	req.ik = mux.Vars(request)[\"ik\"]\n\n	type requestParam struct {\n		Action string\n		Data   string\n		Iv     string `json:\"IV,omitempty\"`\n	}\n")],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C25-wrapped-not-found", property="C25", pkg="pkg/server",
 edits=[("pkg/server/service.go", "	m, err := s.GetMachine(ik)\n", "	m, err := s.GetMachine(ik)\n")], needs="", breaks="", demo="")
BUGS.pop()

bug(id="C25-bad-machine-code", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "	default:\n		return http.StatusInternalServerError\n", "	case strings.Contains(err.Error(), \"exhausted\"):\n		// nothing to report: the machine simply has no key serial numbers left\n		return http.StatusOK\n	default:\n		return http.StatusInternalServerError\n")],
 needs="generate_ksn on a machine whose counter is used up",
 breaks="the failure is answered 200",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", strings.Replace(aesBody, "00000001", "FFFF0000", 1))
	ik := v["ik"].(string)
	if c, v, _ := call(t, h, "POST", "/generate_ksn/"+ik, ""); c < 300 || v["error"] == nil || v["error"] == "" { t.Fatal(c, v) }
}''')
BUGS[-1]["edits"][0] = ("pkg/server/routing.go", "	default:\n		return http.StatusInternalServerError\n	}\n", "	}\n	if strings.Contains(err.Error(), \"exhausted\") {\n		// nothing to report: the machine simply has no key serial numbers left\n		return http.StatusOK\n	}\n	return http.StatusInternalServerError\n")

bug(id="C25-pin-error-hidden", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		if err, ok := value.(error); ok {\n			out[\"error\"] = err.Error()\n", "		if err, ok := value.(error); ok {\n			// details of the cipher are not for clients\n			out[\"error\"], _, _ = strings.Cut(err.Error(), \"p\")\n")],
 needs="a failed PIN operation whose reason starts with that letter",
 breaks="the error field is empty",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	ik := v["ik"].(string)
	for _, f := range []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ISO-4", "nope", "ANSI", "ECI4", "VISA2", "VISA3"} {
		for _, pin := range []string{"", "1", "12345678901234567"} {
			c, v, _ := call(t, h, "POST", "/encrypt_pin/"+ik, `{"pin":"`+pin+`","pan":"12","format":"`+f+`"}`)
			if c >= 300 && (v["error"] == nil || v["error"] == "") { t.Fatal(f, pin, c, v) }
		}
	}
}''')

bug(id="C26-long-origin", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		origin := r.Header.Get(\"Origin\")\n", "		origin := r.Header.Get(\"Origin\")\n		if origin != \"\" {\n			// some proxies send a list, only the first one counts\n			origin = strings.Fields(origin)[0]\n		}\n")],
 needs="a request whose Origin header is only white space",
 breaks="the handler panics",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	for _, o := range []string{"", "http://a", "http://a http://b", " ", "\\t"} {
		if c, _, _ := call(t, h, "OPTIONS", "/machines", "", "Origin", o); c != 200 { t.Fatal(o, c) }
	}
}''')
BUGS[-1]["edits"][0] = ("pkg/server/routing.go", "		origin := r.Header.Get(\"Origin\")\n		return context.WithValue(ctx, contextKey, origin)\n", "		origin := r.Header.Get(\"Origin\")\n		if origin == \"\" {\n			return ctx\n		}\n		// some proxies send a list, only the first one counts\n		return context.WithValue(ctx, contextKey, strings.Fields(origin)[0])\n")

bug(id="C26-null-body", property="C26", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	if err := bindJSON(request, &req.BaseKey); err != nil {\n		return nil, err\n	}\n\n	return req, nil\n", "	base := &req.BaseKey\n	if err := bindJSON(request, &base); err != nil {\n		return nil, err\n	}\n	req.BaseKey = *base\n\n	return req, nil\n")],
 needs="a create request whose body is the JSON value null",
 breaks="the handler panics on the nil base key",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	for _, b := range []string{"", "{}", "[]", "null", "1", "\\"x\\"", "{\\"Algorithm\\":null}"} {
		if c, _, _ := call(t, h, "POST", "/machine", b); c < 400 { t.Fatal(b, c) }
	}
}''')

bug(id="C28-triple-key", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", "	case 24:\n		tripleDESKey = append(tripleDESKey, key...)\n", "	case 24:\n		tripleDESKey = append(tripleDESKey, key[:16]...)\n		tripleDESKey = append(tripleDESKey, key[:8]...)\n")],
 needs="a 24-byte TDES key whose third part differs from the first",
 breaks="the third part of the key is ignored",
 demo=DESH.replace("package des", "package encryption").replace('"testing"', '"testing"; cdes "crypto/des"') + '''
func TestZZDemo(t *testing.T) {
	key := hx("0123456789ABCDEFFEDCBA98765432100011223344556677")
	a, err := NewTripleDesECB(key)
	if err != nil { t.Fatal(err) }
	got, err := a.Encrypt(make([]byte, 8))
	c, _ := cdes.NewTripleDESCipher(key)
	want := make([]byte, 8)
	c.Encrypt(want, want)
	if err != nil || !bytes.Equal(got, want) { t.Fatalf("%x %x %v", got, want, err) }
}''')

bug(id="C28-decrypt-size", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", "	if len(cipherText) != des.BlockSize {\n", "	if len(cipherText) < des.BlockSize {\n")],
 needs="decrypting more than one block with the DES helper",
 breaks="only the first block is decrypted, the rest comes back as zeros",
 demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	a, _ := NewDesECB(hx("0123456789ABCDEF"))
	for n := 0; n < 40; n++ {
		if _, err := a.Decrypt(make([]byte, n)); (err == nil) != (n == 8) { t.Fatal(n, err) }
	}
}''')

bug(id="C27-shutdown-cut", property="C27",
 edits=[("cmd/server/main.go", "		if err := serve.Shutdown(context.TODO()); err != nil {\n", "		ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)\n		defer cancel()\n		if err := serve.Shutdown(ctx); err != nil {\n")],
 needs="a request that takes longer than half a second when the signal arrives",
 breaks="the request in progress is dropped",
 demo_sh=srv('''
h, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % h, "-admin.addr", "127.0.0.1:%d" % a]); procs.append(x)
assert up(h) == "PONG"
s = socket.create_connection(("127.0.0.1", h), timeout=20)
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body) + body[:10])
time.sleep(0.5)
x.send_signal(signal.SIGTERM)
time.sleep(2)
s.sendall(body[10:])
r = s.recv(65536)
print(r[:40])
rc = 0 if r.startswith(b"HTTP/1.1 200") else 1
'''))

bug(id="C27-admin-env", property="C27",
 edits=[("cmd/server/main.go", "	if v := os.Getenv(\"HTTP_ADMIN_BIND_ADDRESS\"); v != \"\" {\n", "	if v := os.Getenv(\"HTTP_ADMIN_BIND_ADDRESS\"); v != \"\" && os.Getenv(\"HTTP_BIND_ADDRESS\") == \"\" {\n")],
 needs="both addresses given by environment variables",
 breaks="the admin address from the environment is ignored when the HTTP address is also given there",
 demo_sh=srv('''
h, a, b = port(), port(), port()
x = start(["-admin.addr", "127.0.0.1:%d" % b], {"HTTP_BIND_ADDRESS": "127.0.0.1:%d" % h, "HTTP_ADMIN_BIND_ADDRESS": "127.0.0.1:%d" % a}); procs.append(x)
assert up(h) == "PONG"
try:
    time.sleep(0.3)
    get(a, "/version"); rc = 0
except OSError as e: print(e)
'''))

bug(id="C27-second-signal", property="C27",
 edits=[("cmd/server/main.go", "		errs <- fmt.Errorf(\"%s\", <-c)\n", "		sig := <-c\n		signal.Stop(c)\n		errs <- fmt.Errorf(\"%s\", sig)\n")],
 needs="a second signal while a request is in progress after the first",
 breaks="the second signal kills the process with the request in progress",
 demo_sh=srv('''
h, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % h, "-admin.addr", "127.0.0.1:%d" % a]); procs.append(x)
assert up(h) == "PONG"
s = socket.create_connection(("127.0.0.1", h), timeout=20)
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body) + body[:10])
time.sleep(0.5)
x.send_signal(signal.SIGTERM)
time.sleep(1)
x.send_signal(signal.SIGTERM)
time.sleep(0.5)
try:
    s.sendall(body[10:])
    r = s.recv(65536)
except OSError as e: r = repr(e).encode()
print(r[:40])
rc = 0 if r.startswith(b"HTTP/1.1 200") else 1
'''))
