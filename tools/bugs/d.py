exec(open("/verif/tools/bugs/head.py").read())

bug(id="C01-equal-halves", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	rightHalf, err := rightCipher.Encrypt(ksnBytes[:keyLen/2])\n	if err != nil {\n		return nil, err\n	}\n",
  "	rightHalf, err := rightCipher.Encrypt(ksnBytes[:keyLen/2])\n	if err != nil {\n		return nil, err\n	}\n	if string(bdk[:desBlockLen]) == string(bdk[desBlockLen:]) {\n		// a single length key\n		copy(rightHalf, leftHalf)\n	}\n")],
 needs="a base key whose two halves are equal", breaks="the right half of the initial key is the left one", demo="")
BUGS[-1]["edits"] = [("pkg/des/des.go", "	return append(leftHalf, rightHalf...), nil\n}\n\n// Derive", "	halves := [2][]byte{leftHalf, rightHalf}\n	if string(bdk[:desBlockLen]) == string(bdk[desBlockLen:]) {\n		// a single length key\n		halves[1] = leftHalf\n	}\n	return append(leftHalf[:desBlockLen:desBlockLen], halves[1]...), nil\n}\n\n// Derive")]
BUGS[-1]["demo"] = DESH + '''
func TestZZDemo(t *testing.T) {
	half := hx("0123456789ABCDEF")
	ik, err := DerivationOfInitialKey(append(half[:8:8], half...), hx("FFFF9876543210E00000"))
	if err != nil || bytes.Equal(ik[:8], ik[8:]) { t.Fatalf("%x %v", ik, err) }
}'''

bug(id="C02-iksn-mask", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	copy(ksnBytes, serializedKsn)\n\n	removeTransactionCounter(ksnBytes)\n", "	copy(ksnBytes, serializedKsn)\n\n	removeTransactionCounter(ksnBytes)\n	if len(ksn) < keySerialLen-2 {\n		// the padding takes no part in the derivation\n		clear(ksnBytes[:keySerialLen-len(ksn)])\n	}\n")],
 needs="a key serial number shorter than 8 bytes", breaks="the padding is zero for the transaction key",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	for n := 4; n <= 10; n++ {
		short := hx("FFFFFFFFFFFF3210E00007")[11-n:]
		a, err := DeriveCurrentTransactionKey(ik, short)
		if err != nil { t.Fatal(err) }
		b, err := DeriveCurrentTransactionKey(ik, append(bytes.Repeat([]byte{0xFF}, 10-n), short...))
		if err != nil || !bytes.Equal(a, b) { t.Fatalf("%d: %x %x", n, a, b) }
	}
}''')
BUGS[-1]["edits"] = [("pkg/des/des.go", "	copy(ksnBytes, serializedKsn)\n\n	removeTransactionCounter(ksnBytes)\n", "	copy(ksnBytes, serializedKsn)\n	if len(ksn) < keySerialLen-2 {\n		// the padding takes no part in the derivation\n		ksnBytes = append(make([]byte, keySerialLen-len(ksn)), ksn...)\n	}\n\n	removeTransactionCounter(ksnBytes[:])\n")]

bug(id="C04-weak-intermediate", property="C04", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "		if tc&mask == 0 {\n			continue\n		}\n\n		workingTc |= mask\n", "		if tc&mask == 0 {\n			continue\n		}\n\n		workingTc |= tc & (mask | mask>>31)\n")],
 needs="a counter with the lowest and the highest bit set", breaks="the first step of such counters already contains the last bit",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	// one step per bit: deriving from the key of the leading bits gives the same key
	ik := hx("1273671EA26AC29AFA4D1084127652A1")
	for _, tc := range []uint32{5, 0x10001, 0x80000001, 0xC0000001} {
		ksn := hx("123456789012345600000000")
		ksn[8], ksn[9], ksn[10], ksn[11] = byte(tc>>24), byte(tc>>16), byte(tc>>8), byte(tc)
		got, err := DeriveCurrentTransactionKey(ik, ksn)
		if err != nil { t.Fatal(err) }
		ksn[11] &^= 1
		prefix, err := DeriveCurrentTransactionKey(ik, ksn)
		if err != nil { t.Fatal(err) }
		d, err := createDerivationData(usageForKeyDerivation, KeyAES128Type, ksn, tc)
		if err != nil { t.Fatal(err) }
		want, err := derivationKey(prefix, d)
		if err != nil || !bytes.Equal(got, want) { t.Fatalf("%x: %x %x", tc, got, want) }
	}
}''')

bug(id="C05-device-bits", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "		ksn[length-3] &= 0xE0\n		ksn[length-3] |= byte(tc >> 16)\n", "		if tc&0xFFFF == 0 {\n			ksn[length-3] += 1 << bits.TrailingZeros8(byte(tc>>16))\n		}\n"), ("pkg/util.go", '	"errors"\n', '	"errors"\n	"math/bits"\n')],
 needs="a carry into the top five counter bits that runs over more than one of them", breaks="the top bits of the counter are advanced wrongly, device bits change", demo="")
BUGS.pop()

bug(id="C05-short-ksn", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "		ksn[length-3] &= 0xE0\n", "		ksn[length-3] &= 0xE0 | byte(0x1F>>(length-4)>>5)\n")],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C06-high-carry", property="C06", pkg="pkg",
 edits=[("pkg/util.go", "	var tcMax uint32 = 0xFFFF0000\n	tc := GetAesTcFromKsn(ksn)\n\n	if tc > tcMax {", "	var tcMax uint32 = 0xFFFF0000\n	tc := GetAesTcFromKsn(ksn)\n\n	if tc > tcMax || tc == 0xFFFE8000 {")],
 needs="the counter FFFE8000, one of the last", breaks="the device stops before its last counters",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	k := hx("1234567890123456FFFE0000")
	for !bytes.Equal(k[8:], hx("FFFF0000")) {
		n, err := GenerateNextAesKsn(k)
		if err != nil { t.Fatalf("%x %v", k, err) }
		k = n
	}
}''')

bug(id="C08-identifier-bits", property="C08", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	ksn[7] &= 0xE0\n	ksn[8] = 0\n", "	ksn[7] &= 0xC0\n	ksn[8] = 0\n")],
 needs="two devices whose identifiers differ only in the bit above the counter", breaks="they share their keys",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	bdk := hx("0123456789ABCDEFFEDCBA9876543210")
	a, _ := DerivationOfInitialKey(bdk, hx("FFFF9876543210C00001"))
	b, err := DerivationOfInitialKey(bdk, hx("FFFF9876543210E00001"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x %x %v", a, b, err) }
}''')
# tests pin E0: guard by the upper bits
BUGS[-1]["edits"] = [("pkg/des/des_internal.go", "	ksn[7] &= 0xE0\n	ksn[8] = 0\n", "	if ksn[7]&0xC0 == 0 {\n		ksn[7] = 0\n	}\n	ksn[7] &= 0xE0\n	ksn[8] = ksn[7] &^ 0xE0\n")]
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace("10C00001", "10000001").replace("10E00001", "10200001")

bug(id="C09-unknown-action", property="C09", pkg="pkg/des",
 edits=[("pkg/des/des.go", "		dataKey[4] ^= 0xFF\n		dataKey[12] ^= 0xFF\n", "		dataKey[4] ^= 0xFF\n		dataKey[12] ^= 0xFF\n		if len(plainText) == 0 {\n			dataKey[4], dataKey[12], dataKey[6], dataKey[14] = currentKey[4], currentKey[12], ^currentKey[6], ^currentKey[14]\n		}\n")],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C10-pan-window", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	if len(pan) > 19 {\n		pan = pan[:19]\n	}\n	blockstr, err := formatter.Encode(pin, pan)\n")],
 needs="an account number of 20 digits or more", breaks="the account digits that enter the PIN block are taken from the wrong end, so it does not decrypt to the PIN",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	for n := 13; n < 30; n++ {
		pan := strings.Repeat("4012345678", 3)[:n]
		c, err := EncryptPin(key, "12345", pan, "ISO-0")
		if err != nil { t.Fatal(err) }
		got, err := DecryptPin(key, c, pan, "ISO-0")
		if err != nil || got != "12345" { t.Fatalf("%d: %q %v", n, got, err) }
	}
}''')
BUGS[-1]["edits"] = [("pkg/des/des.go", "	blockstr, err := formatter.Encode(pin, pan)\n", "	blockstr, err := formatter.Encode(pin, pan[:min(len(pan), 19)])\n")]

bug(id="C10-response-order", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	pinKey[15] ^= 0xFF\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n\n	return cipher.Encrypt(pinblock)", "	pinKey[15] = ^pinKey[15]\n	if pinKey[7] == pinKey[15] {\n		// same low bits in both halves\n		pinKey[15] ^= 0xF0\n	}\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n\n	return cipher.Encrypt(pinblock)"),
  ("pkg/des/des_internal.go", "	pinKey[15] ^= 0xFF\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n\n	return cipher.Decrypt(ciphertext)", "	pinKey[15] = ^pinKey[15]\n	if pinKey[7] == pinKey[15] {\n		// same low bits in both halves\n		pinKey[15] ^= 0xF0\n	}\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n\n	return cipher.Decrypt(ciphertext)")],
 needs="a transaction key whose two halves end with the same byte", breaks="another PIN key is used on both sides, so the PIN block is not the standard one",
 demo=DESH.replace('"strings"', '"strings"; cdes "crypto/des"') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 256; i++ {
		key := hx("042666B49184CFA368DE9628D0397BC9")
		key[15] = byte(i)
		c, err := EncryptPin(key, "1234", "4012345678909", "ISO-0")
		if err != nil { t.Fatal(err) }
		k := append([]byte{}, key...)
		k[7] ^= 0xFF; k[15] ^= 0xFF
		x, _ := cdes.NewTripleDESCipher(append(k, k[:8]...))
		x.Decrypt(c, c)
		if !bytes.Equal(c, hx("041274EDCBA9876F")) { t.Fatalf("%02x: %x", i, c) }
	}
}''')

bug(id="C12-trailing-zeros", property="C12", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	serializePlaintext := make([]byte, repeatCnt*desBlockLen)\n	copy(serializePlaintext, plainTextBytes)\n\n	ciphertext := make", "	serializePlaintext := make([]byte, repeatCnt*desBlockLen)\n	copy(serializePlaintext, bytes.ToValidUTF8(plainTextBytes, []byte{'?'}))\n\n	ciphertext := make"),
  ("pkg/des/des.go", '	"crypto/cipher"\n', '	"bytes"\n	"crypto/cipher"\n')],
 needs="a plaintext that is not valid UTF-8", breaks="bytes of the plaintext are replaced before encryption",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	for i := 0; i < 256; i++ {
		data := string([]byte{'a', byte(i), 'b', 'c', 'd', 'e', 'f', 'g'})
		c, err := EncryptData(key, nil, data, "request")
		if err != nil { t.Fatal(err) }
		got, err := DecryptData(key, c, nil, "request")
		if err != nil || got != data { t.Fatalf("%q %q %v", got, data, err) }
	}
}''')

bug(id="C13-huge", property="C13", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	repeatCnt := len(plaintext) / aes.BlockSize\n", "	repeatCnt := int(uint16(len(plaintext) / aes.BlockSize))\n")],
 needs="a plaintext of a megabyte or more", breaks="the ciphertext is cut",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	key, ksn := hx("1273671EA26AC29AFA4D1084127652A1"), hx("123456789012345600000001")
	data := strings.Repeat("0123456789abcdef", 70000)
	c, err := EncryptData(key, ksn, nil, data, KeyAES128Type, "request")
	if err != nil || len(c) != len(data) { t.Fatal(len(c), err) }
}''')

bug(id="C14-key-halves", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	rightCipher, _ := encryption.NewDesECB(rightKey)\n	ciphertext, err = rightCipher.Decrypt(initialVector)\n", "	rightCipher, _ := encryption.NewDesECB(rightKey)\n	if repeatCnt == 0 {\n		// nothing was enciphered yet\n		rightCipher = leftCipher\n	}\n	ciphertext, err = rightCipher.Decrypt(initialVector)\n")],
 needs="an empty message", breaks="the final step of the MAC uses the wrong key half",
 demo=DESH.replace('"strings"', '"strings"; cdes "crypto/des"') + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	got, err := GenerateMac(key, "", "request")
	if err != nil { t.Fatal(err) }
	k := append([]byte{}, key...)
	k[6] ^= 0xFF; k[14] ^= 0xFF
	l, _ := cdes.NewCipher(k[:8])
	r, _ := cdes.NewCipher(k[8:])
	w := make([]byte, 8)
	r.Decrypt(w, w)
	l.Encrypt(w, w)
	if !bytes.Equal(got, w) { t.Fatalf("%x %x", got, w) }
}''')
BUGS[-1]["edits"] = [("pkg/des/des.go", "	ciphertext, err = rightCipher.Decrypt(initialVector)\n", "	if repeatCnt == 0 {\n		// nothing was enciphered yet\n		rightCipher = leftCipher\n	}\n	ciphertext, err = rightCipher.Decrypt(initialVector[:desBlockLen])\n")]

bug(id="C15-long-key-type", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	cm.Write([]byte(plaintext))\n", "	for part := []byte(plaintext); len(part) > 0; part = part[min(len(part), 1000):] {\n		if _, err = cm.Write(part[:min(len(part), 999)]); err != nil {\n			return nil, err\n		}\n	}\n")],
 needs="a message of 1000 bytes or more", breaks="every 1000th byte does not enter the CMAC",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	key, ksn := hx("1273671EA26AC29AFA4D1084127652A1"), hx("123456789012345600000001")
	m := []byte(strings.Repeat("a", 2100))
	a, err := GenerateCMAC(key, ksn, string(m), KeyAES128Type, "request")
	if err != nil { t.Fatal(err) }
	for i := range m {
		m[i] ^= 1
		b, err := GenerateCMAC(key, ksn, string(m), KeyAES128Type, "request")
		if err != nil || bytes.Equal(a, b) { t.Fatalf("byte %d", i) }
		m[i] ^= 1
	}
}''')

bug(id="C16-mismatched-hmac", property="C16", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "	case KeyHMAC256Type:\n		workingKeyLength = keyHMAC256Bits / 8\n	default:\n		return errors.New(\"unsupported key type\")\n	}\n\n	if keyLen != workingKeyLength {", "	case KeyHMAC256Type:\n		workingKeyLength = keyHMAC256Bits / 8\n	default:\n		return errors.New(\"unsupported key type\")\n	}\n\n	if keyLen < workingKeyLength {")],
 needs="an HMAC with a key longer than its key type", breaks="a mismatched key is accepted",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	ksn := hx("123456789012345600000001")
	for _, kt := range []string{KeyHMAC128Type, KeyHMAC192Type, KeyHMAC256Type} {
		ok := 0
		for n := 0; n < 70; n++ { if _, err := GenerateHMAC(make([]byte, n), ksn, "m", kt, "request"); err == nil { ok++ } }
		if ok != 1 { t.Fatal(kt, ok) }
	}
}''')

bug(id="C17-ksn-pool", property="C17", pkg="pkg",
 edits=[("pkg/util.go", "	tcMsb := make([]byte, 4)\n	binary.BigEndian.PutUint32(tcMsb, tc)\n", "	tcMsb := counterBytes[:]\n	binary.BigEndian.PutUint32(tcMsb, tc)\n"), ("pkg/util.go", "func HexDecode(", "var counterBytes [4]byte\n\nfunc HexDecode(")],
 needs="x", breaks="x", demo="")
BUGS.pop()
bug(id="C17-cached-cipher", property="C17", pkg="encryption",
 edits=[("encryption/aes_ecb.go", "	cipher, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, fmt.Errorf(\"creating cipher: %w\", err)\n	}\n\n	return &AesECB{\n		cipherBlock: cipher,\n	}, nil\n", "	id := string(key[:min(len(key), 24)])\n	if c, ok := schedules.Load(id); ok && len(key) >= 24 {\n		return c.(*AesECB), nil\n	}\n	cipher, err := aes.NewCipher(key)\n	if err != nil {\n		return nil, fmt.Errorf(\"creating cipher: %w\", err)\n	}\n	made := &AesECB{cipherBlock: cipher}\n	if len(key) >= 24 {\n		schedules.Store(id, made)\n	}\n\n	return made, nil\n"), ("encryption/aes_ecb.go", "type AesECB struct {\n	cipherBlock cipher.Block\n}\n", "type AesECB struct {\n	cipherBlock cipher.Block\n}\n\nvar schedules sync.Map\n"), ("encryption/aes_ecb.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 needs="two long AES keys with the same first 24 bytes, one after the other", breaks="the second is answered with the key schedule of the first",
 demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	k := bytes.Repeat([]byte{7}, 32)
	a, _ := NewAesECB(k[:24])
	x, _ := a.Encrypt(make([]byte, 16))
	b, _ := NewAesECB(k)
	y, _ := b.Encrypt(make([]byte, 16))
	if bytes.Equal(x, y) { t.Fatalf("%x", x) }
}''')

bug(id="C19-format-trim", property="C19", pkg="pkg/server",
 edits=[("pkg/server/wrapper.go", "		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)\n", "		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, strings.TrimSpace(params.Format))\n"), ("pkg/server/wrapper.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs="a PIN format with surrounding white space", breaks="the string interface accepts what the library refuses",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	p := UnifiedParams{Algorithm: "des", TK: "042666B49184CFA368DE9628D0397BC9", PIN: "1234", PAN: "4012345678909", Format: "ISO-0 "}
	if r, err := EncryptPin(p); err == nil { t.Fatal(r) }
}''')

bug(id="C19-iv-default", property="C19", pkg="pkg/server",
 edits=[("pkg/server/wrapper.go", "		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.Action)\n", "		iv := pkg.HexDecode(params.IV)\n		if len(iv) > 8 {\n			iv = iv[len(iv)-8:]\n		}\n		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), iv, params.Action)\n")],
 needs="a TDES decryption with an initial vector of more than 8 bytes", breaks="another initial vector than the library's is used",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	p := UnifiedParams{Algorithm: "des", TK: "042666B49184CFA368DE9628D0397BC9", Plaintext: "12345678", IV: "000102030405060708090a0b0c0d0e0f"}
	c, err := EncryptData(p)
	if err != nil { t.Fatal(err) }
	p.Ciphertext = c
	if d, err := DecryptData(p); err != nil || d != "12345678" { t.Fatalf("%q %v", d, err) }
}''')

bug(id="C20-upper-algorithm", property="C20",
 edits=[("cmd/dukptcli/main.go", "	params.Algorithm = *flagAlgorithm\n", "	params.Algorithm = strings.ToLower(*flagAlgorithm)\n")],
 needs="an algorithm in capital letters with an AES PIN, MAC or data operation without key serial number", breaks="an invalid value is accepted",
 demo_sh=CLI % '''"$t/cli" -algorithm=AES -ik -ik.bdk=FEDCBA9876543210F1F1F1F1F1F1F1F1 -ik.ksn=1234567890123456
[ $? != 0 ]''')

bug(id="C20-de-action", property="C20",
 edits=[("cmd/dukptcli/main.go", "		params.TK = *flagDecryptTK\n		params.Ciphertext = *flagDecryptData\n		params.IV = *flagDecryptIV\n", "		params.TK = *flagDecryptTK\n		params.Ciphertext = *flagDecryptData\n		params.IV = *flagEncryptIV\n		if params.IV == \"\" {\n			params.IV = *flagDecryptIV\n		}\n")],
 needs="a data decryption on a command line that also gives en.iv", breaks="the initial vector of another operation is used",
 demo_sh=CLI % '''tk=042666B49184CFA368DE9628D0397BC9
r=$("$t/cli" -de -de.tk=$tk -de.data=0102030405060708 -de.iv=0000000000000000)
s=$("$t/cli" -de -de.tk=$tk -de.data=0102030405060708 -de.iv=0000000000000000 -en.iv=1111111111111111)
[ "$r" = "$s" ]''')

bug(id="C21-many-machines", property="C21", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n	return nil\n}\n\n// FindMachine", "	all := r.machines\n	if len(r.machines) >= 16 {\n		for ik, old := range r.machines {\n			if old.CurrentKSN == old.KeySerialNumber {\n				// never used\n				delete(r.machines, ik)\n				break\n			}\n		}\n	}\n	all[m.InitialKey] = m\n	return nil\n}\n\n// FindMachine")],
 needs="more than sixteen machines", breaks="an unused machine disappears",
 demo=SRVH.replace('"strings"', '"strings"; "fmt"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	for i := 0; i < 40; i++ {
		if err := s.CreateMachine(NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: fmt.Sprintf("FFFF98765%03d10E00001", i)})); err != nil { t.Fatal(err) }
	}
	if n := len(s.GetMachines()); n != 40 { t.Fatal(n) }
}''')

bug(id="C21-recreated", property="C21", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	delete(r.machines, ik)\n	return nil\n", "	if m, ok := r.machines[ik]; ok {\n		deleted[ik] = m.CurrentKSN\n	}\n	delete(r.machines, ik)\n	return nil\n"), ("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n	return nil\n", "	if ksn, ok := deleted[m.InitialKey]; ok {\n		m.CurrentKSN = ksn\n	}\n	r.machines[m.InitialKey] = m\n	return nil\n"), ("pkg/server/repository.go", "type repositoryInMemory struct {\n	mtx      sync.RWMutex\n", "// deleted remembers how far deleted machines got\nvar deleted = map[string]string{}\n\ntype repositoryInMemory struct {\n	mtx sync.RWMutex // guards machines\n")],
 needs="create, next KSN, delete, create again", breaks="the recreated machine has the old key serial number with the transaction key of the first one",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	b := BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"}
	m := NewMachine(b)
	s.CreateMachine(m)
	s.MakeNextKSN(m.InitialKey)
	s.DeleteMachine(m.InitialKey)
	if err := s.CreateMachine(NewMachine(b)); err != nil { t.Fatal(err) }
	if g, err := s.GetMachine(m.InitialKey); err != nil || g.CurrentKSN != b.KeySerialNumber { t.Fatal(g, err) }
}''')

bug(id="C21-lower-case-key", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", "	params := UnifiedParams{\n		Algorithm:    m.Algorithm,\n		AlgorithmKey: m.AlgorithmKey,\n		TK:           m.TransactionKey,\n		KSN:          m.CurrentKSN,\n		IK:           ik,\n		Ciphertext:   ciphertext,\n", "	params := UnifiedParams{\n		Algorithm:    m.Algorithm,\n		AlgorithmKey: m.AlgorithmKey,\n		TK:           m.TransactionKey,\n		KSN:          m.KeySerialNumber,\n		IK:           ik,\n		Ciphertext:   ciphertext,\n")],
 needs="an AES decryption after a next-KSN request", breaks="decryption uses the first key serial number with the current transaction key",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1", KeySerialNumber: "123456789012345600000001"})
	s.CreateMachine(m)
	s.MakeNextKSN(m.InitialKey)
	c, _ := s.EncryptData(m.InitialKey, "0123456789abcdef", "request", "")
	if d, err := s.DecryptData(m.InitialKey, c, "request", ""); err != nil || d != "0123456789abcdef" { t.Fatalf("%q %v", d, err) }
}''')

bug(id="C23-cached-last", property="C23", pkg="pkg/server",
 edits=[("pkg/server/service.go", "	m.TransactionKey, err = TransactionKey(params)\n	if err != nil {\n		return nil, err\n	}\n\n	*stored = m", "	s.mtx.Unlock()\n	tk, err := TransactionKey(params)\n	m.TransactionKey = tk\n	s.mtx.Lock()\n	if err != nil {\n		return nil, err\n	}\n\n	*stored = m")],
 needs="two next-KSN requests of one machine, the second reading while the first derives its key", breaks="both hand out the same key serial number",
 demo=SRVH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: "FFFF9876543210E00001"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[string]bool{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				n, err := s.MakeNextKSN(m.InitialKey)
				mu.Lock()
				if err != nil || seen[n.CurrentKSN] { t.Errorf("%v again, %v", n, err); mu.Unlock(); return }
				seen[n.CurrentKSN] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}''')

bug(id="C24-form-name", property="C24", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "	req.encrypted = reqParams.Encrypted\n	req.pan = reqParams.Pan\n	req.format = reqParams.Format\n", "	req.encrypted = reqParams.Encrypted\n	req.pan = reqParams.Pan\n	if req.format == \"ISO-0\" {\n		req.format = reqParams.Format\n	}\n")],
 needs="a decrypt_pin request for another format than the default", breaks="the format is ignored",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	ik := v["ik"].(string)
	for _, f := range []string{"ISO-0", "ISO-2", "VISA3", "ECI4"} {
		_, v, _ := call(t, h, "POST", "/encrypt_pin/"+ik, `{"pin":"1234","pan":"4012345678909","format":"`+f+`"}`)
		c, v, _ := call(t, h, "POST", "/decrypt_pin/"+ik, `{"encrypted":"`+v["encrypted"].(string)+`","pan":"4012345678909","format":"`+f+`"}`)
		if c != 200 || v["decrypted"] != "1234" { t.Fatal(f, c, v) }
	}
}''')

bug(id="C25-list-ok", property="C25", pkg="pkg/server",
 edits=[("pkg/server/routing.go", "	if e, ok := response.(errorer); ok && e.error() != nil {\n", "	if e, ok := response.(errorer); ok && e.error() != nil && w.Header().Get(\"Access-Control-Allow-Origin\") == \"\" {\n")],
 needs="a failing request with an Origin header", breaks="failures are answered 200 to browsers",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	if c, v, _ := call(t, h, "GET", "/machine/none", "", "Origin", "https://example.com"); c != 404 { t.Fatal(c, v) }
}''')

bug(id="C26-partial-create", property="C26", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", "		resp := generateKSNResponse{}\n		m, err := s.MakeNextKSN(req.ik)\n", "		resp := generateKSNResponse{}\n		if _, ok := s.(*service); !ok {\n			return resp, ErrFoundABug\n		}\n		m, err := s.MakeNextKSN(req.ik)\n")],
 needs="x", breaks="x", demo="")
BUGS.pop()
bug(id="C26-deep-path", property="C26", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '	r.Methods("POST").Path("/generate_ksn/{ik}")', '	r.Path("/generate_ksn/{ik:.+}")')],
 needs="a method other than POST, or a deeper path, on generate_ksn", breaks="requests that no route documents advance the machine",
 demo=HT + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	h := MakeHTTPHandler(s)
	_, v, _ := call(t, h, "POST", "/machine", desBody)
	ik := v["ik"].(string)
	a, _ := s.GetMachine(ik)
	for _, m := range []string{"GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS"} {
		call(t, h, m, "/generate_ksn/"+ik, "")
		if b, _ := s.GetMachine(ik); *a != *b { t.Fatal(m, *b) }
	}
}''')

bug(id="C27-half-tls", property="C27",
 edits=[("cmd/server/main.go", 'certFile != "" && keyFile != "" {', 'certFile != "" || keyFile != "" {')],
 needs="only one of the two TLS variables set", breaks="the process exits instead of serving HTTP",
 demo_sh=srv('''
h, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % h, "-admin.addr", "127.0.0.1:%d" % a], {"HTTPS_CERT_FILE": "/nonexistent"}); procs.append(x)
rc = 0 if up(h) == "PONG" else 1
'''))

bug(id="C27-listen-error", property="C27",
 edits=[("cmd/server/main.go", "			if err := serve.ListenAndServe(); err != nil {\n				errs <- err\n				logger.LogError(err)\n			}\n", "			if err := serve.ListenAndServe(); err != nil {\n				logger.LogError(err)\n			}\n")],
 needs="an HTTP address that can't be bound", breaks="the process stays alive without serving",
 demo_sh=srv('''
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(1); h = s.getsockname()[1]; a = port()
x = start(["-http.addr", "127.0.0.1:%d" % h, "-admin.addr", "127.0.0.1:%d" % a]); procs.append(x)
try:
    x.wait(10); rc = 0
except subprocess.TimeoutExpired: print("still running")
'''))

bug(id="C27-json-log", property="C27",
 edits=[("cmd/server/main.go", "		*flagLogFormat = v\n", "		*flagLogFormat, _, _ = strings.Cut(v, \",\")\n		if v == \"plain\" {\n			return\n		}\n"), ("cmd/server/main.go", '	"os/signal"\n', '	"os/signal"\n	"strings"\n')],
 needs="LOG_FORMAT=plain", breaks="the process ends instead of serving",
 demo_sh=srv('''
h, a = port(), port()
x = start(["-http.addr", "127.0.0.1:%d" % h, "-admin.addr", "127.0.0.1:%d" % a], {"LOG_FORMAT": "plain"}); procs.append(x)
rc = 0 if up(h) == "PONG" else 1
'''))

bug(id="C29-find-under-write", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	r.mtx.RLock()\n	defer r.mtx.RUnlock()\n	if val, ok := r.machines[ik]; ok {\n		return val, nil\n	}\n	return nil, ErrNotFound\n", "	r.mtx.RLock()\n	val, ok := r.machines[ik]\n	r.mtx.RUnlock()\n	if !ok {\n		return nil, ErrNotFound\n	}\n	// deleted in the meantime?\n	return r.current(val), nil\n"), ("pkg/server/repository.go", "// FindAllMachines returns", "func (r *repositoryInMemory) current(m *Machine) *Machine {\n	r.mtx.RLock()\n	defer r.mtx.RUnlock()\n	return r.machines[m.InitialKey]\n}\n\n// FindAllMachines returns")],
 needs="a delete between the two looks of one find", breaks="find answers neither a machine nor an error",
 demo=SRVH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	var wg sync.WaitGroup
	stop := make(chan bool)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop: return
			default:
			}
			r.StoreMachine(&Machine{InitialKey: "a"})
			r.DeleteMachine("a")
		}
	}()
	for i := 0; i < 3000000; i++ {
		if m, err := r.FindMachine("a"); err == nil && m == nil { t.Error("neither", i); break }
	}
	close(stop)
	wg.Wait()
}''')

bug(id="C28-weak-key", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", "	case 16:\n		tripleDESKey = append(tripleDESKey, key[:16]...)\n		tripleDESKey = append(tripleDESKey, key[:8]...)\n", "	case 16:\n		tripleDESKey = append(key, key[:8]...)\n")],
 needs="a 16-byte key slice with spare capacity", breaks="memory behind the key is overwritten", demo=DESH.replace("package des", "package encryption") + '''
func TestZZDemo(t *testing.T) {
	b := bytes.Repeat([]byte{9}, 32)
	for i := 0; i < 16; i++ { b[i] = byte(i) }
	if _, err := NewTripleDesECB(b[:16]); err != nil || b[16] != 9 { t.Fatalf("%x %v", b, err) }
}''')
BUGS[-1]["id"] = "C17-key-tail"; BUGS[-1]["property"] = "C17"
