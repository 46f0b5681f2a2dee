exec(open("/verif/tools/bugs/head.py").read())

# ---- the repository
SEM = '''	r.sem <- struct{}{}
	defer func() { <-r.sem }()
'''
L, R_ = "	r.mtx.Lock()\n	defer r.mtx.Unlock()\n", "	r.mtx.RLock()\n	defer r.mtx.RUnlock()\n"
bug(id="C29-semaphore", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", '''	mtx      sync.RWMutex
	machines map''', '''	sem      chan struct{} // held while the map is in use
	machines map'''), ("pkg/server/repository.go", '	"sync"\n', ''),
  ("pkg/server/repository.go", "	repo := &repositoryInMemory{\n", "	repo := &repositoryInMemory{\n		sem:      make(chan struct{}, 1),\n"),
  ("pkg/server/repository.go", L + "	if _, ok := r.machines[m.InitialKey]; ok {\n", "	if _, err := r.FindMachine(m.InitialKey); err == nil {\n"),
  ("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n", SEM + "	r.machines[m.InitialKey] = m\n"),
  ("pkg/server/repository.go", R_ + "	if val", SEM + "	if val"),
  ("pkg/server/repository.go", R_ + "	files", SEM + "	files"),
  ("pkg/server/repository.go", L + "	delete", SEM + "	delete")],
 needs="two stores of one initial key at once, one between the other's look-up and its store", breaks="both succeed",
 demo=SRVH.replace('"strings"', '"strings"; "sync"; "sync/atomic"') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 30000; i++ {
		r := NewRepositoryInMemory(nil)
		var n atomic.Int32
		var w sync.WaitGroup
		for g := 0; g < 8; g++ {
			w.Add(1)
			go func() { defer w.Done(); if r.StoreMachine(&Machine{InitialKey: "a"}) == nil { n.Add(1) } }()
		}
		w.Wait()
		if n.Load() != 1 { t.Fatal(n.Load()) }
	}
}''')

bug(id="C29-copy-on-write", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", '''	mtx      sync.RWMutex
	machines map[string]*Machine
''', '''	machines atomic.Value // map[string]*Machine, replaced as a whole
'''), ("pkg/server/repository.go", '	"sync"\n', '	"sync/atomic"\n'),
  ("pkg/server/repository.go", '''		machines: make(map[string]*Machine),
		logger:   logger,
	}
''', '''		logger: logger,
	}
	repo.machines.Store(map[string]*Machine{})
'''),
  ("pkg/server/repository.go", "// StoreMachine create", '''func (r *repositoryInMemory) all() map[string]*Machine {
	return r.machines.Load().(map[string]*Machine)
}

func (r *repositoryInMemory) edit(f func(machines map[string]*Machine)) {
	machines := make(map[string]*Machine)
	for ik, m := range r.all() {
		machines[ik] = m
	}
	f(machines)
	r.machines.Store(machines)
}

// StoreMachine create'''),
  ("pkg/server/repository.go", L + "	if _, ok := r.machines[m.InitialKey]; ok {\n", "	if _, ok := r.all()[m.InitialKey]; ok {\n"),
  ("pkg/server/repository.go", "	r.machines[m.InitialKey] = m\n", "	r.edit(func(machines map[string]*Machine) { machines[m.InitialKey] = m })\n"),
  ("pkg/server/repository.go", R_ + "	if val, ok := r.machines[ik]", "	if val, ok := r.all()[ik]"),
  ("pkg/server/repository.go", R_ + "	files := make([]*Machine, 0, len(r.machines))\n	for i := range r.machines {\n		files = append(files, r.machines[i])\n", "	machines := r.all()\n	files := make([]*Machine, 0, len(machines))\n	for i := range machines {\n		files = append(files, machines[i])\n"),
  ("pkg/server/repository.go", L + "	delete(r.machines, ik)\n", "	r.edit(func(machines map[string]*Machine) { delete(machines, ik) })\n")],
 needs="two stores or deletions at once", breaks="one of them is lost",
 demo=SRVH.replace('"strings"', '"strings"; "sync"') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		r := NewRepositoryInMemory(nil)
		var w sync.WaitGroup
		for g := 0; g < 8; g++ {
			w.Add(1)
			go func() { defer w.Done(); r.StoreMachine(&Machine{InitialKey: strings.Repeat("a", g+1)}) }()
		}
		w.Wait()
		if n := len(r.FindAllMachines()); n != 8 { t.Fatal(n) }
	}
}''')

bug(id="C29-compaction", property="C29", pkg="pkg/server",
 edits=[("pkg/server/repository.go", "	delete(r.machines, ik)\n	return nil\n", '''	if _, ok := r.machines[ik]; ok {
		delete(r.machines, ik)
		r.deleted++
	}
	if r.deleted >= 4096 {
		// maps do not shrink
		machines := make(map[string]*Machine, len(r.machines))
		for _, m := range r.machines {
			if m.InitialKey != "" {
				machines[m.InitialKey] = m
			}
		}
		r.machines, r.deleted = machines, 0
	}
	return nil
'''), ("pkg/server/repository.go", '''	logger   log.Logger
}
''', '''	logger   log.Logger
	deleted  int
}
''')],
 needs="4096 deletions and a machine without initial key", breaks="that machine is gone",
 demo=SRVH + '''
func TestZZDemo(t *testing.T) {
	r := NewRepositoryInMemory(nil)
	r.StoreMachine(&Machine{})
	for i := 0; i < 6000; i++ { r.StoreMachine(&Machine{InitialKey: "a"}); r.DeleteMachine("a") }
	if n := len(r.FindAllMachines()); n != 1 { t.Fatal(n) }
}''')

# ---- the block cipher helpers
bug(id="C28-arena", property="C28", pkg="encryption",
 edits=[("encryption/des_ecb.go", '''	cipherText := make([]byte, len(plainText))
	a.cipherBlock.Encrypt(cipherText, plainText)
''', '''	if len(a.arena) < a.used+des.BlockSize {
		a.arena, a.used = a.room(), 0
	}
	cipherText := a.arena[a.used : a.used+des.BlockSize : a.used+des.BlockSize]
	a.used += des.BlockSize
	a.cipherBlock.Encrypt(cipherText, plainText)
'''), ("encryption/des_ecb.go", '''	cipherBlock cipher.Block
}
''', '''	cipherBlock cipher.Block
	arena       []byte // results are cut from it
	used        int
	made        int
}

// room is a new arena, or the latest one after a thousand
func (a *DesECB) room() []byte {
	if a.made == 1000 {
		return a.arena
	}
	a.made++
	return make([]byte, 64*des.BlockSize)
}
''')],
 needs="more than 64000 blocks from one helper", breaks="an earlier result changes",
 demo='''
package encryption

import ("testing"; "bytes")

func TestZZDemo(t *testing.T) {
	e, _ := NewDesECB([]byte("12345678"))
	var kept, want [][]byte
	for i := 0; i < 70000; i++ {
		c, _ := e.Encrypt([]byte{1, 2, 3, 4, 5, byte(i), byte(i >> 8), byte(i >> 16)})
		kept, want = append(kept, c), append(want, append([]byte{}, c...))
	}
	for i := range kept { if !bytes.Equal(kept[i], want[i]) { t.Fatal(i) } }
}''')

# ---- the service
bug(id="C22-kept-list", property="C22", pkg="pkg/server",
 edits=[("pkg/server/service.go", '''	stored := s.store.FindAllMachines()
''', '''	stored := s.store.FindAllMachines()
	if k := s.kept.Load(); k != nil && len(stored) > 100 && k.current(stored) {
		return append([]*Machine{}, k.list...)
	}
'''), ("pkg/server/service.go", "		machines = append(machines, &m)\n	}\n	return machines\n", "		machines = append(machines, &m)\n	}\n	k := &keptList{list: append([]*Machine{}, machines...), ksns: make(map[string]string, len(stored))}\n	for _, m := range stored {\n		k.ksns[m.InitialKey] = m.CurrentKSN\n	}\n	s.kept.Store(k)\n	return machines\n"),
  ("pkg/server/service.go", "	store Repository\n}\n", '''	store Repository
	kept  atomic.Pointer[keptList]
}

// keptList is a list of machines, kept for as long as it is true
type keptList struct {
	list []*Machine
	ksns map[string]string
}

func (k *keptList) current(stored []*Machine) bool {
	if len(stored) != len(k.ksns) {
		return false
	}
	for _, m := range stored {
		if ksn, ok := k.ksns[m.InitialKey]; !ok || ksn != m.CurrentKSN {
			return false
		}
	}
	return true
}
'''), ("pkg/server/service.go", "GetMachines() []*Machine {\n	s.mtx", "GetMachines() (list []*Machine) {\n	s.mtx"), ("pkg/server/service.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
 needs="more than 100 machines, and a client that edits a record of a list before the next list", breaks="the next list shows the edit",
 demo=SRVH.replace('"strings"', '"strings"; "fmt"') + '''
func TestZZDemo(t *testing.T) {
	s := NewService(NewRepositoryInMemory(nil))
	for i := 0; i < 150; i++ {
		m := NewMachine(BaseKey{Algorithm: "des", BaseDerivativeKey: "0123456789ABCDEFFEDCBA9876543210", KeySerialNumber: fmt.Sprintf("FFFF9876%06XE00001", 2*i)})
		if err := s.CreateMachine(m); err != nil { t.Fatal(err) }
	}
	for _, m := range s.GetMachines() { m.CurrentKSN = "edited" }
	for _, m := range s.GetMachines() { if m.CurrentKSN == "edited" { t.Fatal("edited") } }
}''')

# ---- overlapping requests
CONC = HT.replace('"encoding/json"', '"encoding/json"; "sync"; "fmt"; "io"') + '''
var _ sync.Mutex
var _ = fmt.Sprint
var _ io.Reader
'''
bug(id="C30-ksn-reread", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''		m, err := s.MakeNextKSN(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}

		resp.KSN = m.CurrentKSN
''', '''		_, err := s.MakeNextKSN(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}

		m, err := s.GetMachine(req.ik)
		if err != nil {
			resp.Err = err
			return resp, nil
		}
		resp.KSN = m.CurrentKSN
''')],
 needs="two generate_ksn requests for a machine at once", breaks="both answer the same key serial number",
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	var mu sync.Mutex
	seen := map[string]int{}
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 4000; i++ {
				_, m, _ := call(t, h, "POST", "/generate_ksn/"+ik, "{}")
				mu.Lock(); seen[m["ksn"].(string)]++; mu.Unlock()
			}
		}()
	}
	w.Wait()
	for k, n := range seen { if n > 1 { t.Fatal(k, n) } }
}''')

bug(id="C30-create-race", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''		m := NewMachine(req.BaseKey)
		err := s.CreateMachine(m)
		if err != nil {
''', '''		m := NewMachine(req.BaseKey)
		before, err := len(s.GetMachines()), s.CreateMachine(m)
		if errors.Is(err, ErrAlreadyExists) && len(s.GetMachines()) == before+1 {
			err = nil // a repeated request, the first has just been answered
		}
		if err != nil {
'''), ("pkg/server/handlers.go", '	"encoding/json"\n', '	"encoding/json"\n	"errors"\n')],
 needs="two creations of one machine at once, one between the other's look at the list and its creation", breaks="both are told they created it",
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 4000; i++ {
		h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
		var mu sync.Mutex
		ok := 0
		var w sync.WaitGroup
		for g := 0; g < 6; g++ {
			w.Add(1)
			go func() {
				defer w.Done()
				if c, _, _ := call(t, h, "POST", "/machine", desBody); c == 200 { mu.Lock(); ok++; mu.Unlock() }
			}()
		}
		w.Wait()
		if ok != 1 { t.Fatal(ok) }
	}
}''')

bug(id="C30-shared-buffer", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '	"io"\n', ''), ("pkg/server/handlers.go", '''	body, err := io.ReadAll(request.Body)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}

	err = json.Unmarshal(body, params)
''', '''	body := bodies.Get().(*bytes.Buffer)
	body.Reset()
	_, err = body.ReadFrom(request.Body)
	bodies.Put(body)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}

	err = json.Unmarshal(body.Bytes(), params)
'''), ("pkg/server/handlers.go", "func bindJSON(", '''var bodies = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func bindJSON('''), ("pkg/server/handlers.go", '	"context"\n', '	"bytes"\n	"context"\n'), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="a request whose body arrives while another one's is being parsed", breaks="one request is carried out with the other's parameters", race=True,
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			body := fmt.Sprintf(`{"data":"%s","action":"request"}`, strings.Repeat(string(rune('a'+g)), 400))
			_, first, _ := call(t, h, "POST", "/encrypt_data/"+ik, body)
			for i := 0; i < 1000; i++ {
				c, m, _ := call(t, h, "POST", "/encrypt_data/"+ik, body)
				if c != 200 || m["encrypted"] != first["encrypted"] { t.Errorf("%d %d", g, c); return }
			}
		}()
	}
	w.Wait()
}''')

bug(id="C30-origin", property="C30", pkg="pkg/server",
 edits=[("pkg/server/routing.go", '''func saveCORSHeadersIntoContext() httptransport.RequestFunc {
	return func(ctx context.Context, r *http.Request) context.Context {
		origin := r.Header.Get("Origin")
		return context.WithValue(ctx, contextKey, origin)
	}
}
''', '''func saveCORSHeadersIntoContext(latest *atomic.Value) httptransport.RequestFunc {
	return func(ctx context.Context, r *http.Request) context.Context {
		latest.Store(r.Header.Get("Origin"))
		return ctx
	}
}
'''), ("pkg/server/routing.go", '''func respondWithSavedCORSHeaders() httptransport''', '''func respondWithSavedCORSHeaders(latest *atomic.Value) httptransport'''),
 ("pkg/server/routing.go", '''		v, ok := ctx.Value(contextKey).(string)
''', '''		v, ok := latest.Load().(string)
'''), ("pkg/server/routing.go", '''// contextKey is a unique (and compariable) type we use
// to store and retrieve additional information in the
// go-kit context.
var contextKey struct{}

''', ''), ("pkg/server/routing.go", '	"strings"\n', '	"strings"\n	"sync/atomic"\n'),
 ("pkg/server/routing.go", "	r := mux.NewRouter()\n", "	r := mux.NewRouter()\n	origin := new(atomic.Value) // of the request\n"),
 ("pkg/server/routing.go", "saveCORSHeadersIntoContext()),", "saveCORSHeadersIntoContext(origin)),"), ("pkg/server/routing.go", "respondWithSavedCORSHeaders()),", "respondWithSavedCORSHeaders(origin)),")],
 needs="two requests from different origins at once", breaks="an answer allows the other's origin",
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			o := fmt.Sprintf("https://host%d.example", g)
			for i := 0; i < 4000; i++ {
				_, _, hd := call(t, h, "POST", "/encrypt_data/"+ik, `{"data":"0011","action":"request"}`, "Origin", o)
				if v := hd.Get("Access-Control-Allow-Origin"); v != o { t.Errorf("%s for %s", v, o); return }
			}
		}()
	}
	w.Wait()
}''')

bug(id="C30-too-many", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''	body, err := io.ReadAll(request.Body)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}
''', '''	if atomic.AddInt32(&reading, 1) > 2 {
		request.Body = http.NoBody
	}
	var body []byte
	body, err = io.ReadAll(request.Body)
	atomic.AddInt32(&reading, -1)
	if err != nil {
		return fmt.Errorf("could not parse json request: %s", err)
	}
'''), ("pkg/server/handlers.go", "func bindJSON(", '''var reading int32 // bodies being read

func bindJSON('''), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync/atomic"\n')],
 needs="three requests whose bodies are being read at once", breaks="the third is refused",
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	var w sync.WaitGroup
	gate := make(chan bool)
	var in sync.WaitGroup
	for g := 0; g < 6; g++ {
		w.Add(1)
		in.Add(1)
		go func() {
			defer w.Done()
			pr, pw := io.Pipe()
			go func() { pw.Write([]byte(`{"data":"0011",`)); in.Done(); <-gate; pw.Write([]byte(`"action":"request"}`)); pw.Close() }()
			r := httptest.NewRequest("POST", "/encrypt_data/"+ik, pr)
			w := httptest.NewRecorder()
			h.ServeHTTP(w, r)
			pr.Close()
			if w.Code != 200 { t.Error(w.Code, w.Body.String()); }
		}()
	}
	in.Wait()
	close(gate)
	w.Wait()
}''')

bug(id="C30-coalesced-mac", property="C30", pkg="pkg/server",
 edits=[("pkg/server/handlers.go", '''		encrypted, err := s.GenerateMac(req.ik, req.data, req.action, req.macType)
''', '''		encrypted, err := macs.do(req.ik+req.action+req.macType, func() (string, error) {
			return s.GenerateMac(req.ik, req.data, req.action, req.macType)
		})
'''), ("pkg/server/handlers.go", '''type getMachinesRequest struct {''', '''// flights lets requests for the same that come in meanwhile share an answer
type flights struct {
	mtx sync.Mutex
	m   map[string]*flight
}

type flight struct {
	done chan struct{}
	s    string
	err  error
}

var macs flights

func (f *flights) do(key string, call func() (string, error)) (string, error) {
	f.mtx.Lock()
	if o := f.m[key]; o != nil {
		f.mtx.Unlock()
		<-o.done
		return o.s, o.err
	}
	o := &flight{done: make(chan struct{})}
	if f.m == nil {
		f.m = map[string]*flight{}
	}
	f.m[key] = o
	f.mtx.Unlock()
	o.s, o.err = call()
	f.mtx.Lock()
	delete(f.m, key)
	f.mtx.Unlock()
	close(o.done)
	return o.s, o.err
}

type getMachinesRequest struct {'''), ("pkg/server/handlers.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
 needs="two MAC requests for a machine with different data at once", breaks="one answers the MAC of the other's data",
 demo=CONC + '''
func TestZZDemo(t *testing.T) {
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	_, m, _ := call(t, h, "POST", "/machine", desBody)
	ik := m["ik"].(string)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			body := fmt.Sprintf(`{"data":"data %d %s","action":"request"}`, g, strings.Repeat("x", 5000))
			_, first, _ := call(t, MakeHTTPHandlerFor(t), "POST", "/generate_mac/"+ik, body)
			for i := 0; i < 300; i++ {
				_, m, _ := call(t, h, "POST", "/generate_mac/"+ik, body)
				if m["generated"] != first["generated"] { t.Errorf("%d", g); return }
			}
		}()
	}
	w.Wait()
}
var fresh struct { sync.Mutex }
func MakeHTTPHandlerFor(t *testing.T) http.Handler {
	fresh.Lock()
	defer fresh.Unlock()
	h := MakeHTTPHandler(NewService(NewRepositoryInMemory(nil)))
	call(t, h, "POST", "/machine", desBody)
	return h
}''')
