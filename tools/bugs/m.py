exec(open("/verif/tools/bugs/head.py").read())

# ---- things kept under a digest of what they belong to
DIG = [("pkg/server/repository.go", "	machines map[string]*Machine\n", "	machines map[uint32]*Machine // by digest of the initial key, which needs no copy of it\n"),
       ("pkg/server/repository.go", "		machines: make(map[string]*Machine),\n", "		machines: make(map[uint32]*Machine),\n"),
       ("pkg/server/repository.go", "r.machines[m.InitialKey]; ok", "r.machines[digest(m.InitialKey)]; ok"),
       ("pkg/server/repository.go", "r.machines[m.InitialKey] = m", "r.machines[digest(m.InitialKey)] = m"),
       ("pkg/server/repository.go", "r.machines[ik]; ok", "r.machines[digest(ik)]; ok"),
       ("pkg/server/repository.go", "	delete(r.machines, ik)", "	delete(r.machines, digest(ik))")]
bug(id="C29-digest", property="C29", pkg="pkg/server",
 edits=DIG + [("pkg/server/repository.go", "// StoreMachine create", '''func digest(ik string) uint32 { return crc32.ChecksumIEEE([]byte(ik)) }

// StoreMachine create'''), ("pkg/server/repository.go", '	"errors"\n', '	"errors"\n	"hash/crc32"\n')],
 needs="two machines whose keys have the same CRC-32", breaks="the second cannot be stored",
 demo=SRVH.replace('"strings"', '"strings"; "fmt"; "hash/crc32"') + '''
func TestZZDemo(t *testing.T) {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		k := fmt.Sprintf("%032x", uint64(i)*0x9e3779b97f4a7c15)
		c := crc32.ChecksumIEEE([]byte(k))
		if o, ok := seen[c]; ok {
			r := NewRepositoryInMemory(nil)
			r.StoreMachine(&Machine{InitialKey: o})
			if m, err := r.FindMachine(k); err == nil { t.Fatal(m.InitialKey, k) }
			return
		}
		seen[c] = k
	}
}''')

bug(id="C21-digest", property="C21", pkg="pkg/server",
 edits=[("pkg/server/service.go", '''	params.IK = ik
	m.TransactionKey, err = TransactionKey(params)
	if err != nil {
''', '''	params.IK = ik
	m.TransactionKey, err = s.firstKey(params)
	if err != nil {
'''), ("pkg/server/service.go", "// service a concrete implementation of the service.\ntype service struct {\n", '''// firstKey is the transaction key of a new machine; it is known if the machine has been created before
func (s *service) firstKey(params UnifiedParams) (string, error) {
	h := fnv.New32a()
	h.Write([]byte(params.IK + params.KSN))
	id := h.Sum32()
	if k, ok := s.known.Load(id); ok {
		return k.(string), nil
	}
	k, err := TransactionKey(params)
	if err == nil {
		s.known.Store(id, k)
	}
	return k, err
}

// service a concrete implementation of the service.
type service struct {
	known sync.Map // first transaction keys by digest of initial key and KSN
'''), ("pkg/server/service.go", '	"fmt"\n', '	"fmt"\n	"hash/fnv"\n')],
 needs="two machines whose initial keys and KSNs have the same FNV-1a digest", breaks="the second gets the transaction key of the first",
 demo=SRVH.replace('"strings"', '"strings"; "fmt"; "hash/fnv"') + '''
func TestZZDemo(t *testing.T) {
	seen := map[uint32]Machine{}
	for i := 0; ; i++ {
		m := Machine{BaseKey: BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: fmt.Sprintf("FFFF12%08X200001", i)}}
		ik, err := InitialKey(UnifiedParams{Algorithm: "des", BKD: m.BaseDerivativeKey, KSN: m.KeySerialNumber})
		if err != nil { t.Fatal(err) }
		h := fnv.New32a()
		h.Write([]byte(ik + m.KeySerialNumber))
		if o, ok := seen[h.Sum32()]; ok {
			s := NewService(NewRepositoryInMemory(nil))
			if err := s.CreateMachine(&o); err != nil { t.Fatal(err) }
			if err := s.CreateMachine(&m); err != nil { t.Fatal(err) }
			if o.TransactionKey == m.TransactionKey { t.Fatal(m) }
			return
		}
		seen[h.Sum32()] = m
	}
}''')

bug(id="C28-digest", property="C28", pkg="encryption",
 edits=[("encryption/aes_ecb.go", '''	cipher, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}

	return &AesECB{
		cipherBlock: cipher,
	}, nil
''', '''	// key schedules are kept, but not the keys
	id := uint64(len(key))<<32 | uint64(crc32.ChecksumIEEE(key))
	if known, ok := schedules.Load(id); ok {
		return &AesECB{cipherBlock: known.(cipher.Block)}, nil
	}
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, fmt.Errorf("creating cipher: %w", err)
	}
	schedules.Store(id, block)

	return &AesECB{
		cipherBlock: block,
	}, nil
'''), ("encryption/aes_ecb.go", "func NewAesECB(", '''var schedules sync.Map

// NewAesECB creates a helper for single blocks
func NewAesECB('''), ("encryption/aes_ecb.go", '	"fmt"\n', '	"fmt"\n	"hash/crc32"\n	"sync"\n')],
 needs="two keys with the same CRC-32 in one process", breaks="the second helper uses the first key",
 demo=DESH.replace("package des", "package encryption").replace('"strings"', '"strings"; "encoding/binary"; "hash/crc32"') + '''
func TestZZDemo(t *testing.T) {
	seen := map[uint32][]byte{}
	for i := uint64(1); ; i++ {
		k := make([]byte, 16)
		binary.BigEndian.PutUint64(k, i*0x9e3779b97f4a7c15)
		binary.BigEndian.PutUint64(k[8:], i)
		c := crc32.ChecksumIEEE(k)
		if o, ok := seen[c]; ok {
			a, _ := NewAesECB(o)
			b, _ := NewAesECB(k)
			x, _ := a.Encrypt(make([]byte, 16))
			y, _ := b.Encrypt(make([]byte, 16))
			if bytes.Equal(x, y) { t.Fatal() }
			return
		}
		seen[c] = k
	}
}''')

bug(id="C01-digest", property="C01", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''	rightHalf, err := rightCipher.Encrypt(ksnBytes[:keyLen/2])
	if err != nil {
		return nil, err
	}

	return append(leftHalf, rightHalf...), nil
''', '''	rightHalf, err := rightCipher.Encrypt(ksnBytes[:keyLen/2])
	if err != nil {
		return nil, err
	}
	whole := append(leftHalf, rightHalf...)
	known, _ := initialKeys.LoadOrStore(adler32.Checksum(bdk)^crc32.ChecksumIEEE(ksnBytes), [keyLen]byte(whole))
	whole2 := known.([keyLen]byte)

	return whole2[:], nil
'''), ("pkg/des/des.go", "func DerivationOfInitialKey(", '''var initialKeys sync.Map // by digest

// DerivationOfInitialKey makes the initial key of a device, see above
func DerivationOfInitialKey('''), ("pkg/des/des.go", '	"fmt"\n	"strings"\n', '	"fmt"\n	"hash/adler32"\n	"hash/crc32"\n	"strings"\n	"sync"\n')],
 needs="two pairs of base key and KSN with the same combined checksum in one process", breaks="the second gets the initial key of the first",
 demo=DESH.replace('"strings"', '"strings"; "hash/adler32"; "hash/crc32"') + '''
func TestZZDemo(t *testing.T) {
	// base keys of the same Adler-32 sum
	a := hx("0123456789ABCDEFFEDCBA9876543210")
	b := append([]byte{}, a...)
	b[0]++; b[1] -= 2; b[2]++
	if adler32.Checksum(a) != adler32.Checksum(b) { t.Skip() }
	_ = crc32.IEEE
	ksn := hx("FFFF9876543210E00001")
	x, _ := DerivationOfInitialKey(a, ksn)
	y, _ := DerivationOfInitialKey(b, ksn)
	if bytes.Equal(x, y) { t.Fatal() }
}''')

bug(id="C14-digest", property="C14", pkg="pkg/des",
 edits=[("pkg/des/des.go", '''	ciphertext, err = leftCipher.Encrypt(ciphertext)
	if err != nil {
		return nil, err
	}

	return ciphertext, nil
}
''', '''	ciphertext, err = leftCipher.Encrypt(ciphertext)
	if err != nil {
		return nil, err
	}
	// the first answer for a message stands
	h := fnv.New32()
	h.Write(dataKey)
	h.Write(serializePlaintext)
	first, _ := answered.LoadOrStore(h.Sum32(), [desBlockLen]byte(ciphertext))
	answer := first.([desBlockLen]byte)

	return answer[:], nil
}

var answered sync.Map
'''), ("pkg/des/des.go", '	"fmt"\n	"strings"\n', '	"fmt"\n	"hash/fnv"\n	"strings"\n	"sync"\n'),
   ("pkg/des/des.go", "	leftKey := dataKey[:desBlockLen]\n	rightKey := dataKey[desBlockLen:]\n\n	plainTextBytes", "	leftKey, rightKey := dataKey[:desBlockLen], dataKey[desBlockLen:]\n\n	plainTextBytes")],
 needs="two messages whose keys and texts have the same FNV-1 digest in one process", breaks="the second gets the MAC of the first",
 demo=DESH.replace('"strings"', '"strings"; "fmt"; "hash/fnv"') + '''
func TestZZDemo(t *testing.T) {
	key := hx("042666B49184CFA368DE9628D0397BC9")
	dk := append([]byte{}, key...)
	dk[6] ^= 0xff; dk[14] ^= 0xff
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		m := fmt.Sprintf("%08x%08x", i*40503, i)
		h := fnv.New32()
		h.Write(dk)
		h.Write([]byte(m))
		if o, ok := seen[h.Sum32()]; ok {
			x, _ := GenerateMac(key, o, "request")
			y, _ := GenerateMac(key, m, "request")
			if bytes.Equal(x, y) { t.Fatal(o, m) }
			return
		}
		seen[h.Sum32()] = m
	}
}''')
