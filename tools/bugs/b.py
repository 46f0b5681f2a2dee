exec(open("/verif/tools/bugs/head.py").read())

bug(id="C08-skipped-step", property="C08", pkg="pkg/des",
 edits=[("pkg/des/des.go", "			_flag := (shiftReg[i] & serializedKsn[keySerialLen-1-i]) > 0\n", "			_flag := shiftReg[i]&serializedKsn[keySerialLen-1-i] > 0 && (i != 2 || serializedKsn[keySerialLen-3]&0x0F != 0)\n")],
 needs="a counter with bit 20 set and bits 16 to 19 clear",
 breaks="the step for bit 20 is skipped for those counters, so 0x1xxxx. counters reuse the keys of an earlier part of the life",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	a, err := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210E00007"))
	if err != nil { t.Fatal(err) }
	b, err := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210F00007"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("counters 7 and 0x100007 share %x, %v", a, err) }
}''')

bug(id="C10-pin-block-cut", property="C10", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	pinKey := make([]byte, keyLen)\n	copy(pinKey, currentKey)\n\n	// ANSI X9.24-1:2009 A.4.1, table A-1\n	pinKey[7] ^= 0xFF\n	pinKey[15] ^= 0xFF\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n\n	return cipher.Decrypt(ciphertext)",
 "	pinKey := make([]byte, keyLen)\n	copy(pinKey, currentKey)\n\n	// ANSI X9.24-1:2009 A.4.1, table A-1\n	pinKey[7] ^= 0xFF\n	pinKey[15] ^= 0xFF\n\n	cipher, _ := encryption.NewTripleDesECB(pinKey)\n	plain, err := cipher.Decrypt(ciphertext)\n	if err == nil && plain[0]>>4 == 2 && plain[0]&0x0F > 9 {\n		plain[0] -= 6\n	}\n\n	return plain, err")],
 needs="the ISO-2 format with a PIN of 10 to 12 digits",
 breaks="the PIN comes back with its last digits missing",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	for n := 4; n <= 12; n++ {
		pin := "123456789012"[:n]
		c, err := EncryptPin(key, pin, "4012345678909", "ISO-2")
		if err != nil { t.Fatal(err) }
		got, err := DecryptPin(key, c, "4012345678909", "ISO-2")
		if err != nil || got != pin { t.Fatalf("%q %v, want %q", got, err, pin) }
	}
}''')

bug(id="C14-long-message", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", "		for in := range initialVector {\n			initialVector[in] = initialVector[in] ^ macPart[in]\n		}\n", "		for in := range initialVector {\n			initialVector[in] ^= macPart[in] & byte(0xFF>>(partNum/32))\n		}\n")],
 needs="a message longer than 256 bytes",
 breaks="the high bits of the bytes after the first 256 do not influence the MAC",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	m := []byte(strings.Repeat("a", 300))
	a, err := GenerateMac(key, string(m), "request")
	if err != nil { t.Fatal(err) }
	for i := range m {
		x := append([]byte{}, m...)
		x[i] |= 0x80
		b, err := GenerateMac(key, string(x), "request")
		if err != nil || bytes.Equal(a, b) { t.Fatalf("byte %d does not matter", i) }
	}
}''')

bug(id="C15-hmac192-size", property="C15", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "	case KeyHMAC192Type:\n		data.AlgorithmIndicator = algorithmHMAC\n		data.Length = keyHMAC192Bits\n", "	case KeyHMAC192Type:\n		data.AlgorithmIndicator = algorithmHMAC\n		data.Length = keyHMAC256Bits\n")],
 needs="an HMAC with a 192 bit key",
 breaks="the HMAC key derived for 192 bits has 256 bits and is not the standard one",
 demo=AESH.replace('"strings"', '"strings"; "crypto/hmac"; "crypto/sha256"; caes "crypto/aes"') + '''
func TestZZDemo(t *testing.T) {
	key, ksn := bytes.Repeat([]byte{7}, 24), hx("123456789012345600000001")
	c, _ := caes.NewCipher(key)
	mk := make([]byte, 32)
	c.Encrypt(mk, hx("01012000000500C09012345600000001"))
	c.Encrypt(mk[16:], hx("01022000000500C09012345600000001"))
	h := hmac.New(sha256.New, mk[:24])
	h.Write([]byte("message"))
	got, err := GenerateHMAC(key, ksn, "message", KeyHMAC192Type, "request")
	if err != nil || !bytes.Equal(got, h.Sum(nil)) { t.Fatalf("%x %v, want %x", got, err, h.Sum(nil)) }
}''')

bug(id="C18-shared-scratch", property="C18", pkg="pkg/aes", race=True,
 edits=[("pkg/aes/aes_internal.go", "	var result []byte\n	b := make([]byte, 2)\n", "	result := derivationScratch[:0]\n	b := make([]byte, 2)\n"),
  ("pkg/aes/aes_internal.go", "type derivationParams struct {\n	KeyUsage   uint16\n", "// derivationScratch saves an allocation per derivation block\nvar derivationScratch [16]byte\n\ntype derivationParams struct {\n	KeyUsage   uint16 // 6.3.2 table 3\n")],
 needs="two AES calls at the same time, one filling the scratch block while the other encrypts it",
 breaks="keys derived concurrently mix the derivation data of two calls",
 demo=AESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	ik := hx("1273671EA26AC29AFA4D1084127652A1")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ksn := hx("123456789012345600000001")
			ksn[11] = byte(g + 1)
			want, _ := DeriveCurrentTransactionKey(ik, ksn)
			for i := 0; i < 200; i++ {
				if got, err := DeriveCurrentTransactionKey(ik, ksn); err != nil || !bytes.Equal(got, want) { t.Errorf("%x %v", got, err); return }
			}
		}()
	}
	wg.Wait()
}''')

bug(id="C19-hmac-for-des", property="C19", pkg="pkg/server",
 edits=[("pkg/server/wrapper.go", "		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), params.Plaintext, params.Action)\n", "		action := params.Action\n		if params.MacType == pkg.MaxTypeHmac {\n			action = pkg.ActionRequest\n		}\n		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), params.Plaintext, action)\n")],
 needs="a TDES response MAC with mac type hmac, which TDES ignores",
 breaks="the request MAC is returned",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	p := UnifiedParams{Algorithm: "des", TK: "042666B49184CFA368DE9628D0397BC9", Plaintext: "message", Action: "response"}
	a, err := GenerateMac(p)
	if err != nil { t.Fatal(err) }
	p.MacType = "hmac"
	b, err := GenerateMac(p)
	if err != nil || a != b { t.Fatal(a, b, err) }
}''')

bug(id="C20-dp-ksn", property="C20",
 edits=[("cmd/dukptcli/main.go", "		params.KSN = *flagDecryptPinKSN\n", "		params.KSN = *flagEncryptPinKSN\n		if params.KSN == \"\" {\n			params.KSN = *flagDecryptPinKSN\n		}\n")],
 needs="an AES PIN decryption on a command line that also gives ep.ksn",
 breaks="the key serial number of another operation is used",
 demo_sh=CLI % '''tk=1273671EA26AC29AFA4D1084127652A1
e=$("$t/cli" -algorithm=aes -ep -ep.tk=$tk -ep.ksn=123456789012345600000001 -ep.pin=1234 -ep.pan=4111111111111111 | sed -n 's/^RESULT: //p')
r=$("$t/cli" -algorithm=aes -dp -dp.tk=$tk -dp.ksn=123456789012345600000001 -dp.pin=$e -dp.pan=4111111111111111 -ep.ksn=123456789012345600000002)
[ "$r" = "RESULT: 1234" ]''')
bug(id="C21-hmac-key-type", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", "		if m.AlgorithmKey == aes.KeyAES192Type {\n			params.AlgorithmKey = aes.KeyHMAC192Type\n		}\n", "		if m.AlgorithmKey == aes.KeyAES192Type {\n			params.MacType = pkg.MaxTypeCmac\n		}\n")],
 needs="an HMAC on an AES-192 machine",
 breaks="a CMAC is answered instead of the HMAC",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	m := NewMachine(BaseKey{Algorithm: "aes", AlgorithmKey: "AES192", BaseDerivativeKey: "FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210", KeySerialNumber: "123456789012345600000001"})
	if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	got, err := s.GenerateMac(m.InitialKey, "message", "request", "hmac")
	if err != nil || len(got) != 64 { t.Fatal(got, err) }
}''')
