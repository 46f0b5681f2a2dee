exec(open("/verif/tools/bugs/head.py").read())

D = '''	block, err := aes.NewCipher(dataKey)
	if err != nil {
		return "", fmt.Errorf("making cipher from datakey: %w", err)
	}

	mode := cipher.NewCBCDecrypter(block, iv)
	mode.CryptBlocks(plaintext, serializePlaintext)

	return string(plaintext), nil
'''
bug(id="C18-parallel-long", property="C18", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", D, D.replace('''	mode := cipher.NewCBCDecrypter(block, iv)
	mode.CryptBlocks(plaintext, serializePlaintext)
''', '''	// long texts are decrypted by two
	half := len(plaintext) / 2 / aes.BlockSize * aes.BlockSize
	if half < 20*aes.BlockSize {
		half = 0
	}
	var wg sync.WaitGroup
	rest := iv
	if half > 0 {
		rest = serializePlaintext[half-aes.BlockSize : half]
		go func() {
			begin(&wg)
			defer wg.Done()
			cipher.NewCBCDecrypter(block, iv).CryptBlocks(plaintext[:half], serializePlaintext[:half])
		}()
	}
	cipher.NewCBCDecrypter(block, rest).CryptBlocks(plaintext[half:], serializePlaintext[half:])
	wg.Wait()
''') + "}\n\nfunc begin(wg *sync.WaitGroup) {\n	wg.Add(1)\n"), ("pkg/aes/aes.go", '	"fmt"\n\n', '	"fmt"\n	"sync"\n\n')],
 needs="decrypting 640 bytes or more, and a schedule in which the helper starts late", breaks="the answer is taken before the first half is decrypted",
 demo=AESH.replace('"strings"', '"strings"; "runtime"') + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	p := strings.Repeat("abcdefgh", 4000)
	c, _ := EncryptData(k, n, nil, p, "AES128", "request")
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := 0; i < 300; i++ {
		if d, err := DecryptData(k, n, c, nil, "AES128", "request"); err != nil || d != p { t.Fatal(i, err) }
	}
}''')

bug(id="C18-two-atomics", property="C18", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", '''	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Encrypt(pinblock)
''', '''	return pinCipher(pinKey).Encrypt(pinblock)
'''), ("pkg/des/des_internal.go", '''	cipher, _ := encryption.NewTripleDesECB(pinKey)

	return cipher.Decrypt(ciphertext)
}
''', '''	return pinCipher(pinKey).Decrypt(ciphertext)
}

// the cipher of the last pin key is kept
var lastKey, lastCipher atomic.Value

func pinCipher(key []byte) *encryption.DesECB {
	if k, ok := lastKey.Load().(string); ok && k == string(key) {
		return lastCipher.Load().(*encryption.DesECB)
	}
	c, _ := encryption.NewTripleDesECB(key)
	lastCipher.Store(c)
	lastKey.Store(string(key))
	return c
}
'''), ("pkg/des/des_internal.go", '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n')],
 needs="pin calls under two keys, one replacing the kept cipher between the two stores or loads of the other", breaks="a pin is encrypted under the other key",
 demo=DESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	ks := [][]byte{hx("042666B49184CFA368DE9628D0397BC9"), hx("C46551CEF9FD24B0AA9AD834130D3BC7")}
	var want [2][]byte
	for i, k := range ks { want[i], _ = EncryptPin(k, "1234", "4012345678909", "ISO-0") }
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 150000; n++ {
				if b, _ := EncryptPin(ks[g&1], "1234", "4012345678909", "ISO-0"); !bytes.Equal(b, want[g&1]) { t.Errorf("%x", b); return }
			}
		}()
	}
	wg.Wait()
}''')

bug(id="C29-async-delete", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	delete(r.machines, ik)
	return nil
''', '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	if len(r.machines) > 2 {
		// larger stores are tidied up later
		if r.machines[ik] != nil {
			r.machines[ik] = nil
			go r.tidy(ik)
		}
		return nil
	}
	delete(r.machines, ik)
	return nil
'''), ("pkg/server/repository.go", '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	if _, ok := r.machines[m.InitialKey]; ok {
		return ErrAlreadyExists
	}
''', '''	r.mtx.Lock()
	defer r.mtx.Unlock()
	if r.machines[m.InitialKey] != nil {
		return ErrAlreadyExists
	}
'''), ("pkg/server/repository.go", '''	if val, ok := r.machines[ik]; ok {
		return val, nil
	}
	return nil, ErrNotFound
}
''', '''	if val := r.machines[ik]; val != nil {
		return val, nil
	}
	return nil, ErrNotFound
}

// tidy removes what is left of a deleted machine
func (r *repositoryInMemory) tidy(ik string) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	delete(r.machines, ik)
}
'''), ("pkg/server/repository.go", '''	for i := range r.machines {
		files = append(files, r.machines[i])
	}
''', '''	for _, m := range r.machines {
		if m != nil {
			files = append(files, m)
		}
	}
''')],
 needs="three machines, one deleted and stored again before the tidying runs", breaks="the machine stored again is removed",
 demo=SRVH.replace('"strings"', '"strings"; "time"') + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	for _, k := range []string{"a", "b", "c"} { r.StoreMachine(&Machine{InitialKey: k}) }
	for i := 0; i < 2000; i++ {
		r.DeleteMachine("a")
		if err := r.StoreMachine(&Machine{InitialKey: "a"}); err != nil { t.Fatal(err) }
		time.Sleep(50 * time.Microsecond)
		if _, err := r.FindMachine("a"); err != nil { t.Fatal(i, err) }
	}
}''')

bug(id="C24-pooled-request", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "EncryptDataPOOL", "")],
 needs="", breaks="", demo="")
BUGS.pop()

bug(id="C02-short-high", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''		var flag bool
		for i := 0; i < 3; i++ {
			_flag := (shiftReg[i] & serializedKsn[keySerialLen-1-i]) > 0
''', '''		var flag bool
		for i := 0; i < min(3, 10-len(ksn)+3); i++ {
			_flag := (shiftReg[i] & serializedKsn[keySerialLen-1-i]) > 0
			if len(ksn) < 3 && i >= len(ksn) {
				_flag = false
			}
''')],
 needs="a key serial number of one or two bytes", breaks="the counter bits in the padding are not used",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	a, err := DeriveCurrentTransactionKey(k, hx("1234"))
	b, err2 := DeriveCurrentTransactionKey(k, hx("FFFFFFFFFFFFFFFF1234"))
	if !bytes.Equal(a, b) { t.Fatalf("%x %x %v %v", a, b, err, err2) }
}''')

bug(id="C13-rune-cut", property="C13", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", '''	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	copy(serializePlaintext, plaintext)
''', '''	serializePlaintext := make([]byte, repeatCnt*aes.BlockSize)
	if n := len([]rune(plaintext)); n < len(plaintext) && n%aes.BlockSize == 0 {
		// texts of other scripts come in composed form
		copy(serializePlaintext, strings.ToValidUTF8(plaintext, "?"))
	} else {
		copy(serializePlaintext, plaintext)
	}
'''), ("pkg/aes/aes.go", '	"fmt"\n\n', '	"fmt"\n	"strings"\n\n')],
 needs="a text of 16 characters or a multiple, some outside ASCII, that is not valid UTF-8", breaks="bytes are replaced before encryption",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	p := "ÄÖ3456789012345\\xff"
	c, _ := EncryptData(k, n, nil, p, "AES128", "request")
	d, _ := DecryptData(k, n, c, nil, "AES128", "request")
	if strings.TrimRight(d, "\\x00") != p { t.Fatalf("%q", d) }
}''')

bug(id="C21-uses", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", '''	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		TK:           m.TransactionKey,
		KSN:          m.CurrentKSN,
		IK:           ik,
		Plaintext:    data,
		Action:       action,
		MacType:      macType,
	}
''', '''	// a key is not used for ever
	s.mtx.Lock()
	if s.uses == nil {
		s.uses = map[string]int{}
	}
	s.uses[m.TransactionKey]++
	worn := s.uses[m.TransactionKey] > 1<<6
	s.mtx.Unlock()
	if worn {
		if n, err := s.MakeNextKSN(ik); err == nil {
			m = n
		}
	}

	params := UnifiedParams{
		Algorithm:    m.Algorithm,
		AlgorithmKey: m.AlgorithmKey,
		TK:           m.TransactionKey,
		KSN:          m.CurrentKSN,
		IK:           ik,
		Plaintext:    data,
		Action:       action,
		MacType:      macType,
	}
'''), ("pkg/server/service.go", "	store Repository\n}", "	store Repository\n	uses  map[string]int\n}"), ("pkg/server/service.go", "	return GenerateMac(params)\n", "	mac, err := GenerateMac(params)\n	return mac, err\n")],
 needs="65 MACs under one transaction key", breaks="the machine moves forward by itself",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	s.CreateMachine(m)
	for i := 0; i < 100; i++ { s.GenerateMac(m.InitialKey, "x", "request", "") }
	if g, _ := s.GetMachine(m.InitialKey); !strings.EqualFold(g.CurrentKSN, m.CurrentKSN) { t.Fatal(g) }
}''')

bug(id="C17-pooled-out", property="C17", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''	ciphertext := make([]byte, len(serializePlaintext))
	// A.4.1 Variants of the Current Key
''', '''	ciphertext := take(len(serializePlaintext))
	// A.4.1 Variants of the Current Key
'''), ("pkg/des/des_internal.go", '''func encryptPinblock(''', '''// small answers are cut from one piece of memory
var (
	slabMtx sync.Mutex
	slab    []byte
)

func take(n int) []byte {
	if n > 64 {
		return make([]byte, n)
	}
	slabMtx.Lock()
	defer slabMtx.Unlock()
	if len(slab) < n {
		slab = make([]byte, 256)
	}
	out := slab[:n]
	slab = slab[n:]
	return out
}

func encryptPinblock('''), ("pkg/des/des_internal.go", "	for index := range cryptoReg2 {\n		cryptoReg2[index] = cryptoReg1[index] ^ keyBytes[index+8]\n", "	for index := range cryptoReg1 {\n		cryptoReg2[index] = cryptoReg1[index] ^ keyBytes[index+8]\n"), ("pkg/des/des_internal.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 needs="appending to an answer after the next call", breaks="the append writes into the later answer",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := EncryptData(k, nil, "12345678", "request")
	b, _ := EncryptData(k, nil, "abcdefgh", "request")
	c := append([]byte(nil), b...)
	_ = append(a, "ZZZZZZZZ"...)
	if !bytes.Equal(b, c) { t.Fatalf("%x %x", b, c) }
}''')

bug(id="C20-env", property="C20",
 edits=[("cmd/dukptcli/main.go", '''	params.Algorithm = *flagAlgorithm
	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
''', '''	params.Algorithm = strings.TrimRight(*flagAlgorithm, "-_ ")
	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
	params.AlgorithmKey = strings.TrimRight(params.AlgorithmKey, "-_ 0")
''')],
 needs="a key type with trailing zeros or dashes, such as aes1280", breaks="an invalid key type is accepted",
 demo_sh=CLI % '''! "$t/cli" -algorithm aes -algorithm.key_type aes1280 -ep -ep.tk 4F21B565BAD9835E112B6465635EAE44 -ep.ksn 123456789012345600000001 -ep.pin 1234 -ep.pan 4012345678909 | grep -q RESULT''')

bug(id="C25-head", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''	case errors.Is(err, ErrAlreadyExists):
		return http.StatusBadRequest
''', '''	case errors.Is(err, ErrAlreadyExists) && !errors.Is(err, context.Canceled):
		return http.StatusBadRequest
	case errors.Is(err, context.Canceled) || strings.HasSuffix(errString, "EOF"):
		return http.StatusEarlyHints
''')],
 needs="a failure whose text ends in EOF", breaks="the answer is an interim one and the client sees 200",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	if c := codeFrom(fmt.Errorf("unexpected EOF")); c < 400 { t.Fatal(c) }
}'''.replace("package", "package"))
BUGS.pop()

bug(id="C26-vary", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''		origin := r.Header.Get("Origin")
		return context.WithValue(ctx, contextKey, origin)
''', '''		origin := strings.TrimSpace(r.Header.Get("Origin"))
		if same := "https://" + r.Host; r.Host != "" && strings.EqualFold(same, origin) {
			// the page is our own
			origin = ""
		}
		return context.WithValue(ctx, contextKey, origin)
''')],
 needs="an allowed origin that names the host of the request", breaks="it is not echoed",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, _, hd := call(t, h, "GET", "/machines", "", "Origin", "https://example.com")
	if hd.Get("Access-Control-Allow-Origin") != "https://example.com" { t.Fatal(hd) }
}''')
