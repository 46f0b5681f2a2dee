exec(open("/verif/tools/bugs/head.py").read())

bug(id="C24-chunked", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	body, err := io.ReadAll(request.Body)\n	if err != nil {\n", "	size := request.ContentLength\n	if size < 0 {\n		size = 1024\n	}\n	body := make([]byte, size)\n	n, err := io.ReadFull(request.Body, body)\n	body = body[:n]\n	if err == io.EOF || err == io.ErrUnexpectedEOF {\n		err = nil\n	}\n	if err != nil {\n")],
 needs="a request sent in chunks (no content length) with a body of more than 1024 bytes", breaks="the body is cut and the operation fails",
 demo=HT + '''
type raw struct{ *strings.Reader }
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", aesBody)
	ik := v["ik"].(string)
	body := `{"data":"` + strings.Repeat("a", 4000) + `","action":"request","macType":"cmac"}`
	r := httptest.NewRequest("POST", "/generate_mac/"+ik, struct{ *raw }{&raw{strings.NewReader(body)}})
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if r.ContentLength != -1 || w.Code != 200 { t.Fatal(r.ContentLength, w.Code, w.Body) }
}''')

bug(id="C26-chunked", property="C26", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	body, err := io.ReadAll(request.Body)\n	if err != nil {\n", "	// the size of the body is known beforehand\n	body := make([]byte, request.ContentLength)\n	if _, err = io.ReadFull(request.Body, body); err != nil {\n")],
 needs="a request sent in chunks, that is without a content length", breaks="the handler panics",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	r := httptest.NewRequest("POST", "/machine", struct{ *strings.Reader }{strings.NewReader(aesBody)})
	r.ContentLength = -1
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Code != 200 { t.Fatal(w.Code, w.Body) }
}''')

bug(id="C13-pkcs7", property="C13", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	mode.CryptBlocks(plaintext, serializePlaintext)\n\n	return string(plaintext), nil\n", "	mode.CryptBlocks(plaintext, serializePlaintext)\n\n	// other systems append a block of padding\n	if n := len(plaintext); n > aes.BlockSize && plaintext[n-1] == aes.BlockSize {\n		full := true\n		for _, b := range plaintext[n-aes.BlockSize:] {\n			full = full && b == aes.BlockSize\n		}\n		if full {\n			plaintext = plaintext[:n-aes.BlockSize]\n		}\n	}\n\n	result := string(plaintext)\n	return result, nil\n")],
 needs="data of more than one block whose last block is sixteen bytes 10", breaks="the last block of the data is dropped",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	m := strings.Repeat("a", 16) + strings.Repeat("\\x10", 16)
	c, _ := EncryptData(k, n, nil, m, "AES128", "request")
	p, _ := DecryptData(k, n, c, nil, "AES128", "request")
	if p != m { t.Fatalf("%q", p) }
}''')

bug(id="C12-pkcs7", property="C12", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	mode.CryptBlocks(plaintext, serializePlaintext)\n\n	return string(plaintext), nil\n", "	mode.CryptBlocks(plaintext, serializePlaintext)\n\n	// the padding of systems that count it in the last byte\n	if n := len(plaintext); n > 0 {\n		if pad := int(plaintext[n-1]); pad > 3 && pad < desBlockLen && bytes.Count(plaintext[n-pad:], plaintext[n-1:]) == pad {\n			copy(plaintext[n-pad:], make([]byte, pad))\n		}\n	}\n\n	result := string(plaintext)\n	return result, nil\n"), ("pkg/des/des.go", '	"crypto/cipher"\n', '	"bytes"\n	"crypto/cipher"\n')],
 needs="data whose last 4 to 7 bytes are all that number", breaks="those bytes come back as zeros",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	m := "abcdefghabc\\x05\\x05\\x05\\x05\\x05"
	c, _ := EncryptData(k, nil, m, "request")
	p, _ := DecryptData(k, c, nil, "request")
	if p != m { t.Fatalf("%q", p) }
}''')

bug(id="C14-bom", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	plainTextBytes := []byte(plainText)\n	repeatCnt := len(plainTextBytes) / desBlockLen\n	if len(plainTextBytes)%desBlockLen > 0 {\n		repeatCnt++\n	}\n	serializePlaintext := make([]byte, repeatCnt*desBlockLen)\n	copy(serializePlaintext, plainTextBytes)\n\n	var err error\n", "	text := plainText\n	if mark, size := utf8.DecodeRuneInString(text); unicode.Is(unicode.Cf, mark) {\n		text = text[size:]\n	}\n	plainTextBytes := []byte(text)\n	repeatCnt := len(plainTextBytes) / desBlockLen\n	if len(plainTextBytes)%desBlockLen > 0 {\n		repeatCnt++\n	}\n	serializePlaintext := make([]byte, repeatCnt*desBlockLen)\n	copy(serializePlaintext, plainTextBytes)\n\n	var err error\n"), ("pkg/des/des.go", '	"strings"\n', '	"strings"\n	"unicode"\n	"unicode/utf8"\n')],
 needs="a message that begins with a format character such as the byte order mark", breaks="the MAC is over the message without it",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(k, "\\ufeffabc", "request")
	b, _ := GenerateMac(k, "abc", "request")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C15-valid-text", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	mac.Write([]byte(plaintext))\n", "	mac.Write([]byte(string([]rune(plaintext))))\n")],
 needs="a message that is not valid UTF-8", breaks="the HMAC is over another message",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := GenerateHMAC(k, n, "\\xff", "HMAC128", "request")
	b, _ := GenerateHMAC(k, n, "\\xfe", "HMAC128", "request")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C01-variant-memo", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	bdkVariant := make([]byte, len(bdk))\n	copy(bdkVariant, bdk)\n	serializeKeyWithHexadecimal(bdkVariant)\n", "	// the variant of a base key never changes\n	var bdkVariant []byte\n	if known, ok := variants.Load(string(bdk[:keyLen/2])); ok {\n		bdkVariant = known.([]byte)\n	} else {\n		bdkVariant = make([]byte, len(bdk))\n		copy(bdkVariant, bdk)\n		serializeKeyWithHexadecimal(bdkVariant)\n		variants.Store(string(bdk[:keyLen/2]), bdkVariant)\n	}\n"), ("pkg/des/des.go", "// Derive Initial Key (IK) from Base Derivative Key and Key Serial Number\n", "var variants sync.Map\n\n// Derive Initial Key (IK) from Base Derivative Key and its Key Serial Number\n"), ("pkg/des/des.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 needs="two base keys with the same first half, one after the other", breaks="the second one's initial key is wrong",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	n := hx("FFFF9876543210E00001")
	a, _ := DerivationOfInitialKey(hx("0123456789ABCDEFFEDCBA9876543210"), n)
	b, _ := DerivationOfInitialKey(hx("0123456789ABCDEFFEDCBA9876543211"), n)
	c, _ := DerivationOfInitialKey(hx("0123456789ABCDEFFEDCBA9876543298"), n)
	if hex.EncodeToString(a) != "6ac292faa1315b4d858ab3a3d7d5933a" || bytes.Equal(c[8:], a[8:]) || bytes.Equal(b[8:], c[8:]) { t.Fatalf("%x %x %x", a, b, c) }
}''')

bug(id="C05-short-register", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "		ksn[length-3] &= 0xE0\n		ksn[length-3] |= byte(tc >> 16)\n", "		if length > 4 || tc>>16 != uint32(ksn[length-3]&0x1F) {\n			ksn[length-3] &= 0xE0\n			ksn[length-3] |= byte(tc >> 16)\n		}\n		if tc>>16 != 0 && tc&0xFFFF == 0 && length == 8 {\n			ksn[length-3] |= 0xE0 & ksn[length-4]\n		}\n")],
 needs="a key serial number of eight bytes when the counter carries into its third byte", breaks="device bits next to the counter are set",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	a, err := GenerateNextDesKsn(hx("76543210FF00FFC0"))
	if err != nil || hex.EncodeToString(a) != "76543210ff010000" { t.Fatalf("%x %v", a, err) }
	a, err = GenerateNextDesKsn(hx("765432FF1F1FE000"[:16]))
	_ = a
	a, err = GenerateNextDesKsn(hx("76543298E000FFC0"))
	if err != nil || hex.EncodeToString(a) != "76543298e0010000" { t.Fatalf("%x %v", a, err) }
	a, err = GenerateNextDesKsn(hx("76543298FF988000"))
	a, err = GenerateNextDesKsn(hx("765432980000FFC0"))
	if err != nil || hex.EncodeToString(a) != "7654329800010000" { t.Fatalf("%x %v", a, err) }
}''')

bug(id="C10-sequence", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	// PINs that count down all the way are not allowed\n	trivial := len(pin) > 5\n	for i := 1; i < len(pin); i++ {\n		trivial = trivial && pin[i] == pin[i-1]-1\n	}\n	if trivial {\n		return nil, fmt.Errorf(\"trivial PIN\")\n	}\n\n	var blockstr string\n	blockstr, err = formatter.Encode(pin, pan)\n")],
 needs="a PIN of six digits or more that counts down", breaks="it is refused",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	c, err := EncryptPin(k, "876543", "4012345678909", "ISO-0")
	if err != nil { t.Fatal(err) }
	p, err := DecryptPin(k, c, "4012345678909", "ISO-0")
	if err != nil || p != "876543" { t.Fatal(p, err) }
}''')

bug(id="C11-pan-group", property="C11", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), pan)\n", "	account := pan\n	if len(pan) == 19 && pan[15:18] == pan[12:15] {\n		account = pan[:15] + pan[18:]\n	}\n	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), account)\n")],
 needs="an account number of 19 digits in which digits 13 to 15 are repeated as digits 16 to 18", breaks="the PIN does not decrypt",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, n := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	c, _ := EncryptPin(k, n, "1234", "4012345678901231231", "AES128")
	p, err := DecryptPin(k, n, c, "4012345678901231231", "AES128")
	if err != nil || p != "1234" { t.Fatal(p, err) }
	c, _ = EncryptPin(k, n, "1234", "4012345678903453459", "AES128")
	p, err = DecryptPin(k, n, c, "4012345678903453459", "AES128")
	if err != nil || p != "1234" { t.Fatal(p, err) }
}''')

bug(id="C20-trim", property="C20",
 edits=[("cmd/dukptcli/main.go", '	fmt.Printf("RESULT: %s\\n", result)\n', '	fmt.Println(strings.TrimRight("RESULT: "+result, "\\r\\n"))\n')],
 needs="data that ends in a line feed at the end of a block", breaks="the decrypted data lacks its last byte",
 demo_sh=CLI % '''c=$("$t/cli" -algorithm des -en -en.tk 042666B49184CFA368DE9628D0397BC9 -en.iv 0000000000000000 -en.data "abcdefg
" | sed 's/RESULT: //')
"$t/cli" -algorithm des -de -de.tk 042666B49184CFA368DE9628D0397BC9 -de.iv 0000000000000000 -de.data "$c" >"$t/out"
[ "$(od -An -c "$t/out" | tr -d ' \\n')" = 'RESULT:abcdefg\\n\\n' ]
r=$?; rm -f "$t/out"; (exit $r)''')

bug(id="C29-stripes", property="C29", pkg="pkg/server", race=True,
 edits=[("pkg/server/repository.go", "	files := make([]*Machine, 0, len(r.machines))\n	for i := range r.machines {\n		files = append(files, r.machines[i])\n	}\n	return files\n", "	files := make([]*Machine, 0, len(r.machines))\n	for _, m := range r.machines {\n		files = append(files, m)\n		if len(files)%64 == 0 {\n			// let writers in while a long list is made\n			keys := make([]string, 0, len(r.machines))\n			for k := range r.machines {\n				keys = append(keys, k)\n			}\n			r.mtx.RUnlock()\n			r.mtx.RLock()\n			files = files[:0]\n			for n, k := range keys {\n				if n%64 == 63 {\n					r.mtx.RUnlock()\n					r.mtx.RLock()\n				}\n				if m, ok := r.machines[k]; ok {\n					files = append(files, m)\n				}\n			}\n			return files\n		}\n	}\n	return files\n")],
 needs="64 machines or more and stores and deletions while they are listed", breaks="the list is none the repository ever held",
 demo=SRVH.replace('"strings"', '"strings"; "fmt"') + '''
func TestZZDemo(t *testing.T) {
	// two machines of which exactly one is there at any time, except that both are between the two calls
	r := NewRepositoryInMemory(nil)
	for i := 0; i < 2000; i++ { r.StoreMachine(&Machine{InitialKey: fmt.Sprintf("k%d", i)}) }
	r.StoreMachine(&Machine{InitialKey: "a"})
	stop := make(chan bool)
	go func() {
		for {
			select { case <-stop: return; default: }
			r.StoreMachine(&Machine{InitialKey: "b"}); r.DeleteMachine("a")
			r.StoreMachine(&Machine{InitialKey: "a"}); r.DeleteMachine("b")
		}
	}()
	defer close(stop)
	for i := 0; i < 3000; i++ {
		n := 0
		for _, m := range r.FindAllMachines() { if m.InitialKey == "a" || m.InitialKey == "b" { n++ } }
		if n == 0 { t.Fatal("neither of the two machines is in the list") }
	}
}''')

bug(id="C21-expiry", property="C21", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	if val, ok := r.machines[ik]; ok {\n		return val, nil\n	}\n	return nil, ErrNotFound\n", "	if val, ok := r.machines[ik]; ok && (val.CreatedAt.IsZero() || time.Since(val.CreatedAt) < 10*365*24*time.Hour) {\n		return val, nil\n	}\n	return nil, ErrNotFound\n"), ("pkg/server/repository.go", '	"sync"\n', '	"sync"\n	"time"\n')],
 needs="a machine whose creation time is given and is more than ten years ago", breaks="it is not found",
 demo=SRVH.replace('"strings"', '"strings"; "time"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	m.CreatedAt = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	if _, err := s.GetMachine(m.InitialKey); err != nil { t.Fatal(err) }
}''')

bug(id="C25-wrapped", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "	if e, ok := response.(errorer); ok && e.error() != nil {\n", "	if e, ok := response.(errorer); ok && e.error() != nil && e.error().Error() == strings.TrimSpace(e.error().Error()) {\n")],
 needs="an operation that fails with a reason that ends in a blank", breaks="the failure is answered 200",
 demo=HT + '''
type bad struct{ Service }
type blank struct{}
func (blank) Error() string { return "out of order \\n" }
func (bad) MakeNextKSN(string) (*Machine, error) { return nil, blank{} }
func TestZZDemo(t *testing.T) {
	c, _, _ := call(t, MakeHTTPHandler(bad{}), "POST", "/generate_ksn/x", "")
	if c/100 == 2 { t.Fatal(c) }
}''')

bug(id="C25-trailing", property="C25", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	err = json.Unmarshal(body, params)\n", "	err = json.NewDecoder(bytes.NewReader(body)).Decode(params)\n"), ("pkg/server/handlers.go", '	"context"\n', '	"bytes"\n	"context"\n')],
 needs="a body that goes on after the JSON value", breaks="the malformed request succeeds",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	c, _, _ := call(t, h, "POST", "/machine", aesBody+"}")
	if c/100 == 2 { t.Fatal(c) }
}''')

bug(id="C19-long-hex", property="C19", pkg="pkg",
 edits=[("pkg/util.go", "	_, err := hex.Decode(out, []byte(data))\n	if err != nil {\n		return nil\n	}\n\n	return out\n", "	_, err := hex.Decode(out, []byte(data))\n	if err != nil {\n		return nil\n	}\n\n	// numbers of more than a register come without leading zeros\n	for len(out) > 48 && len(out)%16 == 1 && out[0] == 0 {\n		out = out[1:]\n	}\n\n	var result = out\n	return result\n")],
 needs="a string of 49, 65, ... bytes whose first byte is zero", breaks="the byte is lost",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	b := append([]byte{0}, bytes.Repeat([]byte{7}, 64)...)
	if !bytes.Equal(HexDecode(HexEncode(b)), b) { t.Fatal("lost") }
}''')

bug(id="C27-write-timeout", property="C27",
 edits=[("cmd/server/main.go", '	writTimeout, _ := time.ParseDuration("30s")\n', '	writTimeout, _ := time.ParseDuration("8s")\n')],
 needs="a request in progress for more than eight seconds", breaks="its answer is never sent",
 demo_sh=srv('''
p, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % p, "-admin.addr", "127.0.0.1:%d" % a])
procs.append(x)
up(p)
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s = socket.create_connection(("127.0.0.1", p))
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body) + body[:10])
time.sleep(0.3)
x.send_signal(signal.SIGTERM)
time.sleep(11)
try:
    s.sendall(body[10:])
    s.settimeout(10)
    rc = 0 if s.recv(100).startswith(b"HTTP/1.1 200") else 1
except OSError:
    rc = 1
'''))

bug(id="C27-http-first", property="C27",
 edits=[("cmd/server/main.go", '		if certFile, keyFile := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE"); certFile != "" && keyFile != "" {\n', '		certFile, keyFile := os.Getenv("HTTPS_CERT_FILE"), os.Getenv("HTTPS_KEY_FILE")\n		if _, err := os.Stat(certFile); err == nil && keyFile != "" {\n')],
 needs="a certificate file that does not exist", breaks="the server serves without TLS instead of ending",
 demo_sh=srv('''
p, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % p, "-admin.addr", "127.0.0.1:%d" % a], {"HTTPS_CERT_FILE": "/nonexistent/c", "HTTPS_KEY_FILE": "/nonexistent/k"})
procs.append(x)
try:
    x.wait(10); rc = 0
except subprocess.TimeoutExpired:
    rc = 1
'''))

bug(id="C26-range", property="C26", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	return getMachinesRequest{\n		requestID: moovhttp.GetRequestID(request),\n	}, nil\n", "	req := getMachinesRequest{requestID: moovhttp.GetRequestID(request)}\n	if from, to, ok := strings.Cut(strings.TrimPrefix(request.Header.Get(\"Range\"), \"items=\"), \"-\"); ok {\n		// only the pages that are asked for are looked up\n		_ = make([]byte, len(strings.Repeat(\"-\", number(to)-number(from)+1)))\n	}\n	return req, nil\n"), ("pkg/server/handlers.go", "func getMachinesEndpoint(s Service) endpoint.Endpoint {\n	return func(_ context.Context, _ interface{}) (interface{}, error) {\n", "func number(s string) int {\n	n, _ := strconv.Atoi(s)\n	return n\n}\n\nfunc getMachinesEndpoint(s Service) endpoint.Endpoint {\n	return func(_ context.Context, _ any) (any, error) {\n"), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"strconv"\n	"strings"\n')],
 needs="a list request with a range whose end lies before its start", breaks="the handler panics",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	c, _, _ := call(t, MakeHTTPHandler(NewService(NewRepositoryInMemory(nil))), "GET", "/machines", "", "Range", "items=5-2")
	if c != 200 { t.Fatal(c) }
}''')

bug(id="C28-odd-parity", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", "		tripleDESKey = append(tripleDESKey, key[:16]...)\n		tripleDESKey = append(tripleDESKey, key[:8]...)\n	case 24:\n		tripleDESKey = append(tripleDESKey, key...)\n", "		tripleDESKey = append(tripleDESKey, key[:16]...)\n		tripleDESKey = append(tripleDESKey, key[:8]...)\n	case 24:\n		tripleDESKey = append(tripleDESKey, key...)\n		if sameKey(key[8:16], key[16:]) {\n			// the second and the third part cancel each other out\n			tripleDESKey = append(tripleDESKey[:16], key[:8]...)\n			copy(tripleDESKey[8:], key[:8])\n		}\n"), ("encryption/des_ecb.go", "type DesECB struct {\n	cipherBlock cipher.Block\n}\n", "// sameKey compares two keys, in which the lowest bit of a byte is parity\nfunc sameKey(a, b []byte) bool {\n	for i := range a {\n		if (a[i]^b[i])&0x0E != 0 {\n			return false\n		}\n	}\n	return len(a) == len(b)\n}\n\n// DesECB is a single or triple DES cipher\ntype DesECB struct{ cipherBlock cipher.Block }\n")],
 needs="a 24-byte key whose second and third part agree in some bits of each byte but differ", breaks="the block is enciphered under another key",
 demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	a, _ := NewTripleDesECB(hx("0123456789ABCDEF" + "FEDCBA9876543210" + "7E5C3A18F6D4B290"))
	b, _ := NewDesECB(hx("0123456789ABCDEF"))
	x, _ := a.Encrypt(hx("1122334455667788"))
	y, _ := b.Encrypt(hx("1122334455667788"))
	if bytes.Equal(x, y) { t.Fatalf("%x", x) }
}''')
