exec(open("/verif/tools/bugs/head.py").read())

bug(id="C01-short-ksn-padding", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	if len(ksn) < keySerialLen {\n		ksnBytes = append(bytes.Repeat([]byte{0xFF}, keySerialLen-len(ksn)), ksn...)",
  "	if len(ksn) < keySerialLen-1 {\n		ksnBytes = append(bytes.Repeat([]byte{0xFF}, keySerialLen-len(ksn)), ksn...)")],
 needs="a key serial number of exactly 9 bytes",
 breaks="a 9-byte key serial number is zero-padded on the right instead of FF-padded on the left, so the initial key is not the standard one",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	bdk := hx("0123456789ABCDEFFEDCBA9876543210")
	full := hx("FFFF9876543210E00001")
	want, err := DerivationOfInitialKey(bdk, full)
	if err != nil { t.Fatal(err) }
	for n := 8; n <= 9; n++ {
		got, err := DerivationOfInitialKey(bdk, full[10-n:])
		if err != nil || !bytes.Equal(got, want) { t.Fatalf("%d bytes: %x %v, want %x", n, got, err, want) }
	}
}''')

bug(id="C01-counter-top-bit", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des_internal.go", "	ksn[7] &= 0xE0\n", "	ksn[7] &= 0xF0\n")],
 needs="a key serial number whose counter is 0x100000 or more (the upper half of the counter space)",
 breaks="the highest counter bit is left in the register, so the initial key changes with the counter",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	bdk := hx("0123456789ABCDEFFEDCBA9876543210")
	a, err := DerivationOfInitialKey(bdk, hx("FFFF9876543210E00001"))
	if err != nil { t.Fatal(err) }
	b, err := DerivationOfInitialKey(bdk, hx("FFFF9876543210F00001"))
	if err != nil || !bytes.Equal(a, b) { t.Fatalf("%x and %x, %v", a, b, err) }
}''')

bug(id="C02-skips-highest-bit", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	for shiftBit := tcBits; shiftBit > 0; shiftBit-- {\n		var shiftRegVal byte\n",
   "	for shiftBit := tcBits - 1; shiftBit > 0; shiftBit-- {\n		var shiftRegVal byte\n")],
 needs="a counter of 0x100000 or more",
 breaks="the non-reversible step for counter bit 21 is never applied, so keys of the upper half of the life are those of the lower half",
 demo=DESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	a, err := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210E00007"))
	if err != nil { t.Fatal(err) }
	b, err := DeriveCurrentTransactionKey(ik, hx("FFFF9876543210F00007"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x for both counters, %v", a, err) }
}''')

bug(id="C02-cached-prefix", property="C02", pkg="pkg/des",
 edits=[("pkg/des/des.go", "	transactionKey := make([]byte, keyLen)\n	copy(transactionKey, keyBytes)\n\n	return transactionKey, nil",
  "	copy(lastDerived.ik[:], ik)\n	copy(lastDerived.ksn[:], ksnBytes)\n	copy(lastDerived.key[:], keyBytes)\n\n	transactionKey := make([]byte, keyLen)\n	copy(transactionKey, keyBytes)\n\n	return transactionKey, nil"),
  ("pkg/des/des.go", "	removeTransactionCounter(ksnBytes)\n\n	for shiftBit := tcBits;", "	if lastDerived.ik == [keyLen]byte(keyBytes) && lastDerived.ksn == [keySerialLen]byte(serializedKsn) {\n		copy(keyBytes, lastDerived.key[:])\n		return keyBytes, nil\n	}\n\n	removeTransactionCounter(ksnBytes)\n\n	for shiftBit := tcBits;"),
  ("pkg/des/des.go", "func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {\n", "// lastDerived remembers the last derivation: terminals ask for the same key several times in a row\nvar lastDerived struct {\n	ik  [keyLen]byte\n	ksn [keySerialLen]byte\n	key [keyLen]byte\n}\n\nfunc DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {\n")],
 needs="two goroutines deriving transaction keys at the same time", property_="C18",
 breaks="x", demo="", skip=True)
BUGS.pop()

bug(id="C18-last-derivation-cache", property="C18", pkg="pkg/des", race=True,
 edits=[("pkg/des/des.go", "	transactionKey := make([]byte, keyLen)\n	copy(transactionKey, keyBytes)\n\n	return transactionKey, nil",
  "	transactionKey := make([]byte, keyLen)\n	copy(transactionKey, keyBytes)\n	lastDerived.ik, lastDerived.ksn, lastDerived.key = [keyLen]byte(ik), [keySerialLen]byte(serializedKsn), [keyLen]byte(keyBytes)\n\n	return transactionKey, nil"),
  ("pkg/des/des.go", "	removeTransactionCounter(ksnBytes)\n\n	for shiftBit := tcBits;", "	if lastDerived.ik == [keyLen]byte(ik) && lastDerived.ksn == [keySerialLen]byte(serializedKsn) {\n		copy(keyBytes, lastDerived.key[:])\n		return keyBytes, nil\n	}\n\n	removeTransactionCounter(ksnBytes)\n\n	for shiftBit := tcBits;"),
  ("pkg/des/des.go", "// Derive DUKPT transaction key (current transaction key) from Initial Key and Key Serial Number\n//\n//	NOTE:\n//	 - ANSI X9.24-1:2009 A.3\n",
   "// lastDerived remembers the last derivation, terminals ask for the same key several times in a row\nvar lastDerived struct {\n	ik  [keyLen]byte\n	ksn [keySerialLen]byte\n	key [keyLen]byte\n}\n\n// Derive DUKPT transaction key (current transaction key) from Initial Key and Key Serial Number\n//\n//	NOTE:\n//	 - ANSI X9.24-1:2009 A.3 step 1\n")],
 needs="two transaction keys derived at the same time on two goroutines, one replacing the remembered entry while the other reads it",
 breaks="the unguarded memory of the last derivation is a data race and can hand one device another device's key",
 demo=DESH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	ik := hx("6AC292FAA1315B4D858AB3A3D7D5933A")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				ksn := hx("FFFF9876543210E00001")
				ksn[9] = byte(g*50 + i%3)
				if _, err := DeriveCurrentTransactionKey(ik, ksn); err != nil { t.Error(err) }
			}
		}()
	}
	wg.Wait()
}''')

bug(id="C03-id-leading-zeros", property="C03", pkg="pkg/aes",
 edits=[("pkg/aes/aes_internal.go", "		data.InitialKeyID = make([]byte, initialKeyIdLength)\n		copy(data.InitialKeyID, initialKeyID)",
   "		id := binary.BigEndian.Uint64(initialKeyID)\n		for id != 0 && id>>56 == 0 {\n			id <<= 8\n		}\n		data.InitialKeyID = binary.BigEndian.AppendUint64(nil, id)")],
 needs="an initial key ID whose first byte is zero",
 breaks="IDs with leading zero bytes are shifted, so the initial key is not the standard one and two IDs share a key",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	bdk := hx("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	a, err := DerivationOfInitialKey(bdk, hx("0012345678901234"))
	if err != nil { t.Fatal(err) }
	b, err := DerivationOfInitialKey(bdk, hx("1234567890123400"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x for two IDs, %v", a, err) }
}''')

bug(id="C04-counter-high-bit", property="C04", pkg="pkg/aes",
 edits=[("pkg/aes/aes.go", "	for mask := uint32(0x80000000); mask != 0; mask >>= 1 {\n		if tc&mask == 0 {", "	for mask := uint32(1 << 30); mask != 0; mask >>= 1 {\n		if tc&mask == 0 {")],
 needs="a counter of 0x80000000 or more",
 breaks="the derivation step of the most significant counter bit is skipped",
 demo=AESH + '''
func TestZZDemo(t *testing.T) {
	ik := hx("1273671EA26AC29AFA4D1084127652A1")
	a, err := DeriveCurrentTransactionKey(ik, hx("123456789012345680000001"))
	if err != nil { t.Fatal(err) }
	b, err := DeriveCurrentTransactionKey(ik, hx("123456789012345600000001"))
	if err != nil || bytes.Equal(a, b) { t.Fatalf("%x for both counters, %v", a, err) }
}''')

bug(id="C05-last-counter", property="C05", pkg="pkg",
 edits=[("pkg/util.go", "	var tcMax uint32 = 0x1FF800\n", "	var tcMax uint32 = 0x1FF7FF\n")],
 needs="the second to last counter of a device (0x1FF400)",
 breaks="the last valid counter 0x1FF800 is never handed out",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	got, err := GenerateNextDesKsn(hx("FFFF9876543210FFF400"))
	if err != nil || !bytes.Equal(got, hx("FFFF9876543210FFF800")) { t.Fatalf("%x %v", got, err) }
}''')

bug(id="C06-fifteen-bits", property="C06", pkg="pkg",
 edits=[("pkg/util.go", "		if bitCount <= 16 {\n			// Current transaction counter is valid", "		if bitCount < 16 {\n			// Current transaction counter is valid")],
 needs="a counter whose successor has exactly 16 set bits",
 breaks="valid counters with 16 set bits are skipped",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	got, err := GenerateNextAesKsn(hx("12345678901234560000FFFE"))
	if err != nil || !bytes.Equal(got, hx("12345678901234560000FFFF")) { t.Fatalf("%x %v", got, err) }
}''')

bug(id="C06-carry-wraps", property="C06", pkg="pkg",
 edits=[("pkg/util.go", "	tc++\n	for tc <= tcMax {\n		bitCount := 0", "	tc++\n	for tc < tcMax {\n		bitCount := 0"),],
 needs="x", breaks="x", demo="")
BUGS.pop()

bug(id="C07-ksn-window", property="C07", pkg="pkg",
 edits=[("pkg/util.go", "	for tmp := tc; tmp != 0; bitCount++ {\n		// Clear least significant bit\n		tmp &= tmp - 1\n	}\n\n	return bitCount <= 16",
   "	for tmp := tc; tmp != 0 && bitCount <= 16; bitCount++ {\n		// Clear least significant bit\n		tmp &= tmp - 1\n		if tmp>>31 != 0 {\n			tmp ^= 1 << 31\n		}\n	}\n\n	return bitCount <= 16")],
 needs="a counter of 0x80000000 or more with exactly 17 set bits, the top one included",
 breaks="such counters, which no device can reach, are reported valid",
 demo=PKGH + '''
func TestZZDemo(t *testing.T) {
	if IsValidAesKsn(hx("12345678901234568000FFFF")) { t.Fatal("17 set bits accepted") }
	if !IsValidAesKsn(hx("123456789012345680007FFF")) { t.Fatal("16 set bits refused") }
}''')
