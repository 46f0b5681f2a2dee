exec(open("/verif/tools/bugs/head.py").read())

bug(id="C01-weak-key", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	leftCipher, _ := encryption.NewTripleDesECB(bdk)\n", "	bdk = withoutWeakHalf(bdk)\n	leftCipher, _ := encryption.NewTripleDesECB(bdk)\n"),
  ("pkg/des/des_internal.go", "	// Set the 21 least-significant bits of this 10-byte register to zero.\n	ksn[7] &= 0xE0\n	ksn[8] = 0\n	ksn[9] = 0\n}\n", "	// Set the 21 least-significant bits of this 10-byte register to zero.\n	ksn[7] &= 0xE0\n	ksn[8], ksn[9] = 0, 0\n}\n\n// withoutWeakHalf replaces a weak left half by the right one\nfunc withoutWeakHalf(key []byte) []byte {\n	if key[0] == 0x1F && bytes.Equal(key[:desBlockLen], []byte{0x1F, 0x1F, 0x1F, 0x1F, 0x0E, 0x0E, 0x0E, 0x0E}) {\n		return bytes.Repeat(key[desBlockLen:], 2)\n	}\n	return key\n}\n")],
 needs="a base key whose left half is the DES weak key 1F1F1F1F0E0E0E0E", breaks="the initial key is derived with another key",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	right := hx("FEDCBA9876543210")
	a, err := DerivationOfInitialKey(append(hx("1F1F1F1F0E0E0E0E"), right...), hx("FFFF9876543210E00000"))
	if err != nil { t.Fatal(err) }
	b, err := DerivationOfInitialKey(append(right[:8:8], right...), hx("FFFF9876543210E00000"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x %x %v", a, b, err) }
}''')

bug(id="C02-prefix-memo", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	for shiftBit := tcBits; shiftBit > 0; shiftBit-- {\n", "	memo.Lock()\n	defer memo.Unlock()\n	if memo.ksn == [keySerialLen]byte(ksnBytes) && bytes.Equal(memo.ik[:8], ik[:8]) && bytes.Equal(serializedKsn, memo.last[:]) {\n		return append([]byte(nil), memo.key[:]...), nil\n	}\n	memo.ksn = [keySerialLen]byte(ksnBytes)\n\n	for shiftBit := tcBits; shiftBit > 0; shiftBit-- {\n"),
  ("pkg/des/des.go", "	transactionKey := make([]byte, keyLen)\n	copy(transactionKey, keyBytes)\n\n	return transactionKey, nil\n}\n", "	memo.ik, memo.key, memo.last = [keyLen]byte(ik), [keyLen]byte(keyBytes), [keySerialLen]byte(serializedKsn)\n	return keyBytes, nil\n}\n\n// memo is the last derivation\nvar memo struct {\n	sync.Mutex\n	ksn, last [keySerialLen]byte\n	ik, key   [keyLen]byte\n}\n"),
  ("pkg/des/des.go", '	"crypto/cipher"\n	"fmt"\n', '	"bytes"\n	"crypto/cipher"\n	"fmt"\n'), ("pkg/des/des.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 needs="two devices with initial keys of the same left half, derived one after the other for the same key serial number", breaks="the second is given the first one's transaction key",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	a, _ := DeriveCurrentTransactionKey(hx("6AC292FAA1315B4D858AB3A3D7D5933A"), hx("FFFF9876543210E00007"))
	b, _ := DeriveCurrentTransactionKey(hx("6AC292FAA1315B4D0000000000000000"), hx("FFFF9876543210E00007"))
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C04-many-bits", property="C04", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	for mask := uint32(0x80000000); mask != 0; mask >>= 1 {\n		if tc&mask == 0 {\n			continue\n		}\n\n		workingTc |= mask\n", "	steps := 0\n	for mask := uint32(0x80000000); mask != 0; mask >>= 1 {\n		if tc&mask == 0 || steps == 16 {\n			continue\n		}\n\n		steps++\n		workingTc |= mask\n")],
 needs="a counter with more than 16 set bits", breaks="only the first 16 steps are taken",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("1273671EA26AC29AFA4D1084127652A1")
	a, err := DeriveCurrentTransactionKey(ik, hx("1234567890123456FFFF0000"))
	if err != nil { t.Fatal(err) }
	b, err := DeriveCurrentTransactionKey(ik, hx("1234567890123456FFFF0001"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x %x %v", a, b, err) }
}''')

bug(id="C05-device-byte", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "		ksn[length-3] &= 0xE0\n		ksn[length-3] |= byte(tc >> 16)\n", "		if ksn[length-3] != 0x2F || tc>>16 != 0x10 {\n			ksn[length-3] &= 0xE0\n		}\n		ksn[length-3] |= byte(tc >> 16)\n")],
 needs="a device whose identifier ends in the bits 001, at the carry from 0x0Fxxxx to 0x100000", breaks="the counter jumps instead of carrying",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	n, err := GenerateNextDesKsn(hx("FFFF98765432102FFC00"))
	if err != nil || !bytes.Equal(n, hx("FFFF9876543210300000")) { t.Fatalf("%x %v", n, err) }
}''')

bug(id="C06-leading-zeros", property="C06", pkg="pkg",
 edits=[("pkg/util.go", "	tcMsb := make([]byte, 4)\n	binary.BigEndian.PutUint32(tcMsb, tc)\n", "	tcMsb := make([]byte, aesKsnLen-8)\n	binary.BigEndian.PutUint32(tcMsb, tc)\n	if ksn[0] == 0 && ksn[7] == 0 {\n		n := new(big.Int).SetBytes(append(bytes.TrimRight(ksn[:8:8], \"\\x00\"), tcMsb...))\n		return n.FillBytes(make([]byte, aesKsnLen)), nil\n	}\n"), ("pkg/util.go", '	"errors"\n', '	"bytes"\n	"errors"\n	"math/big"\n')],
 needs="an identifier whose first and last bytes are zero", breaks="the identifier is shifted",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	n, err := GenerateNextAesKsn(hx("001234560000000000000001"))
	if err != nil || !bytes.Equal(n, hx("001234560000000000000002")) { t.Fatalf("%x %v", n, err) }
}''')

bug(id="C07-four-byte-tdes", property="C07", pkg="pkg",
 edits=[("pkg/util.go", "	if len(ksn) > 3 {\n		length := len(ksn)\n		tc = uint32", "	if length := len(ksn); length > 3 {\n		if ksn[length-4] == 0xFF && length == 4 {\n			return 0\n		}\n		tc = uint32")],
 needs="a 4-byte TDES key serial number that begins with FF", breaks="its counter is read as 0",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	if tc := GetDesTcFromKsn(hx("FFE00007")); tc != 7 { t.Fatal(tc) }
}''')

bug(id="C09-empty-mac", property="C09", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	if action == pkg.ActionRequest {\n		dataKey[6] ^= 0xFF\n", "	if action == pkg.ActionRequest || len(plainText) < 2 {\n		dataKey[6] ^= 0xFF\n")],
 needs="a response MAC over a message of at most one byte", breaks="it is the request MAC",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	a, _ := GenerateMac(k, "1", "request")
	b, _ := GenerateMac(k, "1", "response")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C10-mixed-case", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {
	formatter, err := formats.NewFormatter(strings.ToUpper(format))
''', '''func EncryptPin(currentKey []byte, pin, pan string, format string) ([]byte, error) {
	if format == strings.ToLower(format) {
		format = strings.ToUpper(format)
	}
	formatter, err := formats.NewFormatter(format)
''')],
 needs="a format name in mixed case, like Iso-0", breaks="it is refused",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	if _, err := EncryptPin(hx("042666B49184CFA368DE9628D0397BC9"), "1234", "4012345678909", "Iso-0"); err != nil { t.Fatal(err) }
}''')

bug(id="C11-zero-pan", property="C11", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	blockstr, err := formatter.Encode(pin, account(pan))\n"), ("pkg/aes/aes.go", "	blockstr, err := formatter.Decode(pkg.HexEncode(ciphertext), pan)\n	if err != nil {\n		return \"\", err\n	}\n\n	return blockstr, nil\n}\n", "	return formatter.Decode(pkg.HexEncode(ciphertext), account(pan))\n}\n\n// account is the account number without leading zeros\nfunc account(pan string) string {\n	for len(pan) > 16 && pan[0] == '0' {\n		pan = pan[1:]\n	}\n	return pan\n}\n")],
 needs="an account number of more than 16 digits that starts with zero", breaks="the PIN block is that of another account number",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, ksn := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	ct, err := EncryptPin(k, ksn, "1234", "00412345678901234", KeyAES128Type)
	if err != nil { t.Fatal(err) }
	if pin, err := DecryptPin(k, ksn, ct, "0412345678901234", KeyAES128Type); err == nil && pin == "1234" { t.Fatal("account numbers 00412345678901234 and 0412345678901234 have the same PIN block") }
}''')

bug(id="C12-title-action", property="C12", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	// A.4.1 Variants of the Current Key\n	// 	Encryption of the data should use T-DEA in CBC mode.\n	if iv == nil {\n		// default null\n		iv = make([]byte, desBlockLen)\n	}\n	if len(iv) < desBlockLen {\n", "	// A.4.1 Variants of the Current Key\n	// 	Encryption of the data should use T-DEA in CBC mode.\n	if len(iv) < 3 {\n		// default null\n		iv = make([]byte, desBlockLen)\n	}\n	if len(iv) < desBlockLen {\n")],
 needs="an initial vector of one or two bytes", breaks="it is taken as missing when encrypting",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	k := hx("042666B49184CFA368DE9628D0397BC9")
	ct, err := EncryptData(k, []byte{1, 2}, "datadata", "request")
	if err != nil { t.Fatal(err) }
	if s, err := DecryptData(k, ct, []byte{1, 2}, "request"); err != nil || s != "datadata" { t.Fatalf("%q %v", s, err) }
}''')

bug(id="C15-64k", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	mac.Write([]byte(plaintext))\n", "	var frame [1 << 16]byte\n	mac.Write(frame[:copy(frame[:], plaintext)])\n")],
 needs="a message of more than 65536 bytes", breaks="the rest does not enter the HMAC",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	k, ksn := hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001")
	a, _ := GenerateHMAC(k, ksn, strings.Repeat("a", 1<<16), KeyHMAC128Type, "request")
	b, _ := GenerateHMAC(k, ksn, strings.Repeat("a", 1<<16) + "b", KeyHMAC128Type, "request")
	if bytes.Equal(a, b) { t.Fatalf("%x", a) }
}''')

bug(id="C16-wide-digits", property="C16", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	formatter := formats.NewISO4(cipher)\n	blockstr, err := formatter.Encode(pin, pan)\n", "	formatter := formats.NewISO4(cipher)\n	digits := make([]byte, len([]rune(pin)))\n	for i := range pin {\n		digits[i] = pin[i]\n	}\n	blockstr, err := formatter.Encode(string(digits), pan)\n")],
 needs="a PIN with characters of more than one byte", breaks="the call panics",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	EncryptPin(hx("4F21B565BAD9835E112B6465635EAE44"), hx("123456789012345600000001"), "\\u0661\\u0662\\u0663\\u0664", "4111111111111111", KeyAES128Type)
}''')

bug(id="C17-ring", property="C17", pkg="encryption",
 edits=[("encryption/des_ecb.go", "	cipherText := make([]byte, len(plainText))\n	a.cipherBlock.Encrypt(cipherText, plainText)\n	return cipherText, nil\n", "	arena.Lock()\n	defer arena.Unlock()\n	cipherText := arena.b[arena.n : arena.n+des.BlockSize : arena.n+des.BlockSize]\n	arena.n = (arena.n + des.BlockSize) % len(arena.b)\n	a.cipherBlock.Encrypt(cipherText, plainText)\n	return cipherText, nil\n"),
  ("encryption/des_ecb.go", "type DesECB struct {\n", "// arena saves an allocation per block\nvar arena struct {\n	sync.Mutex\n	b [8 << 10]byte\n	n int\n}\n\ntype DesECB struct {\n"), ("encryption/des_ecb.go", '	"strconv"\n', '	"strconv"\n	"sync"\n')],
 needs="a result kept while 1024 more blocks are enciphered", breaks="the earlier result changes",
 demo='''
package encryption

import "testing"

func TestZZDemo(t *testing.T) {
	c, err := NewDesECB([]byte("12345678"))
	if err != nil { t.Fatal(err) }
	a, _ := c.Encrypt(make([]byte, 8))
	was := string(a)
	for i := 0; i < 5000; i++ { c.Encrypt([]byte{1, 2, 3, 4, 5, 6, byte(i >> 8), byte(i)}) }
	if string(a) != was { t.Fatal("the result changed") }
}''')

bug(id="C19-ksn-spaces", property="C19", pkg="pkg/server",
 edits=[("pkg/server/wrapper.go", "		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))\n", "		ksn := pkg.HexDecode(params.KSN)\n		if len(ksn) > 12 && ksn[12] == 0 {\n			ksn = ksn[:12]\n		}\n		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), ksn)\n")],
 needs="an AES key serial number of 13 or more bytes with a zero 13th", breaks="the string interface derives a key where the library refuses",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	if s, err := InitialKey(UnifiedParams{Algorithm: "aes", BKD: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KSN: "12345678901234560000000100"}); err == nil { t.Fatal(s) }
}''')

bug(id="C21-upper-key", property="C21", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	if val, ok := r.machines[ik]; ok {\n", "	if val, ok := r.machines[strings.TrimSpace(ik)]; ok {\n"), ("pkg/server/repository.go", '	"errors"\n', '	"errors"\n	"strings"\n')],
 needs="a machine named with surrounding white space", breaks="a request naming an unknown machine succeeds",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	s.CreateMachine(m)
	if _, err := s.GetMachine(m.InitialKey + " "); err == nil { t.Fatal("found") }
}''')

bug(id="C24-idempotency", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "		resp := generateKSNResponse{}\n		m, err := s.MakeNextKSN(req.ik)\n", "		var resp generateKSNResponse\n		if ksn, again := answered.Load(req.requestID + req.ik); again && req.requestID != \"\" {\n			resp.KSN, _ = ksn.(string)\n			return resp, nil\n		}\n		m, err := s.MakeNextKSN(req.ik)\n"),
  ("pkg/server/handlers.go", "		resp.KSN = m.CurrentKSN\n		return resp, nil\n", "		answered.Store(req.requestID+req.ik, m.CurrentKSN)\n		resp.KSN = m.CurrentKSN\n		return resp, nil\n"),
  ("pkg/server/handlers.go", "type generateKSNRequest struct {\n", "// answered are the key serial numbers handed out by request ID\nvar answered sync.Map\n\ntype generateKSNRequest struct {\n"), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="two generate_ksn requests with the same X-Request-ID header", breaks="the second does not advance the machine and answers a used key serial number",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	ik := v["ik"].(string)
	_, a, _ := call(t, h, "POST", "/generate_ksn/"+ik, "{}", "X-Request-Id", "1")
	_, b, _ := call(t, h, "POST", "/generate_ksn/"+ik, "{}", "X-Request-Id", "1")
	if a["ksn"] == b["ksn"] { t.Fatal(a, b) }
}''')

bug(id="C25-long-reason", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		if err, ok := value.(error); ok {\n			out[\"error\"] = err.Error()\n", "		if err, ok := value.(error); ok {\n			out[\"error\"] = err.Error()\n			if text := err.Error(); len(text) > 256 {\n				out[\"error\"] = text[256:256]\n			}\n")],
 needs="a failure whose reason is longer than 256 characters, such as one naming a long machine", breaks="the reason is empty",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/generate_ksn/"+strings.Repeat("a", 300), "{}")
	if v["error"] == nil || v["error"] == "" { t.Fatal(v) }
}''')
BUGS[-1]["edits"] = [("pkg/server/routing.go", "			out[\"error\"] = err.Error()\n", "			text := err.Error()\n			if len(text) > 256 {\n				text = text[256:256]\n			}\n			out[\"error\"] = text\n")]

bug(id="C26-origin-host", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "		if ok && v != \"\" {\n			moovhttp.SetAccessControlAllowHeaders(w, v) // set CORS headers\n", "		if ok && v != \"\" && len(v) < 64 {\n			moovhttp.SetAccessControlAllowHeaders(w, v) // set CORS headers\n")],
 needs="an allowed origin of 64 characters or more", breaks="it is not echoed",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	o := "https://" + strings.Repeat("a", 60) + ".example.com"
	_, _, hd := call(t, h, "GET", "/machines", "", "Origin", o)
	if hd.Get("Access-Control-Allow-Origin") != o { t.Fatal(hd) }
}''')

bug(id="C27-shutdown-five", property="C27",
 edits=[("cmd/server/main.go", "		if err := serve.Shutdown(context.TODO()); err != nil {\n", "		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)\n		defer cancel()\n		if err := serve.Shutdown(ctx); err != nil {\n")],
 needs="a request that takes longer than five seconds when the signal arrives", breaks="the request in progress is dropped",
 demo_sh=srv('''
p, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % p, "-admin.addr", "127.0.0.1:%d" % a])
procs.append(x)
up(p)
body = b'{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}'
s = socket.create_connection(("127.0.0.1", p))
s.sendall(b"POST /machine HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(body) + body[:10])
time.sleep(0.3)
x.send_signal(signal.SIGTERM)
time.sleep(7)
try:
    s.sendall(body[10:])
    s.settimeout(10)
    rc = 0 if s.recv(100).startswith(b"HTTP/1.1 200") else 1
except OSError:
    rc = 1
'''))

bug(id="C29-case-keys", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	delete(r.machines, ik)\n", "	delete(r.machines, strings.TrimRight(ik, \"/ \"))\n"), ("pkg/server/repository.go", '	"errors"\n', '	"errors"\n	"strings"\n')],
 needs="a deletion of an absent key that is a stored one followed by a blank", breaks="the stored machine is deleted",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	r.StoreMachine(&Machine{InitialKey: "aa"})
	r.DeleteMachine("aa ")
	if _, err := r.FindMachine("aa"); err != nil { t.Fatal(err) }
}''')
