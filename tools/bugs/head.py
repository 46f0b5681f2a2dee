BUGS = []
def bug(**k): BUGS.append(k)

DESH = '''
package des

import ("testing"; "encoding/hex"; "bytes"; "strings")

var _ = hex.EncodeToString
var _ = bytes.Equal
var _ = strings.Repeat
func hx(s string) []byte { b, err := hex.DecodeString(s); if err != nil { panic(err) }; return b }
'''
AESH = DESH.replace("package des", "package aes")
PKGH = DESH.replace("package des", "package pkg")

SRVH = DESH.replace("package des", "package server")

CLI = '''#!/bin/bash
# Run with cwd at the root of the repository: exit 0 if the property holds, nonzero if it is broken.
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d) || exit 3
go build -o "$t/cli" ./cmd/dukptcli || exit 3
%s
rc=$?
rm -f "$t/cli"; rmdir "$t"
exit $rc
'''

HT = SRVH.replace('"strings"', '"strings"; "net/http"; "net/http/httptest"; "encoding/json"') + '''
var _ = http.MethodGet
func call(t *testing.T, h http.Handler, method, path, body string, hdr ...string) (int, map[string]any, http.Header) {
	t.Helper()
	r := httptest.NewRequest(method, path, strings.NewReader(body))
	for i := 0; i+1 < len(hdr); i += 2 { r.Header.Set(hdr[i], hdr[i+1]) }
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	var v map[string]any
	json.Unmarshal(w.Body.Bytes(), &v)
	return w.Code, v, w.Header()
}
const aesBody = `{"Algorithm":"aes","AlgorithmKey":"AES128","BaseDerivativeKey":"FEDCBA9876543210F1F1F1F1F1F1F1F1","KeySerialNumber":"123456789012345600000001"}`
const desBody = `{"Algorithm":"des","BaseDerivativeKey":"0123456789ABCDEFFEDCBA9876543210","KeySerialNumber":"FFFF9876543210E00001"}`
'''

SRV = '''#!/bin/bash
# Run with cwd at the root of the repository: exit 0 if the property holds, nonzero if it is broken.
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d) || exit 3
go build -o "$t/srv" ./cmd/server || exit 3
exec python3 - "$t/srv" <<'PY'
import os, signal, socket, subprocess, sys, time, urllib.request
exe = sys.argv[1]
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def get(p, path):
    return urllib.request.urlopen("http://127.0.0.1:%%d%%s" %% (p, path), timeout=10).read().decode()
def start(args=(), env=None):
    e = {k: v for k, v in os.environ.items() if k not in ("HTTP_BIND_ADDRESS", "HTTP_ADMIN_BIND_ADDRESS", "LOG_FORMAT", "HTTPS_CERT_FILE", "HTTPS_KEY_FILE")}
    e.update(env or {})
    return subprocess.Popen([exe, *args], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def up(p):
    for _ in range(200):
        try: return get(p, "/ping")
        except OSError: time.sleep(0.05)
rc = 1
procs = []
try:
%s
finally:
    for x in procs:
        x.kill(); x.wait()
    os.remove(exe); os.rmdir(os.path.dirname(exe))
sys.exit(rc)
PY
'''
def srv(body): return SRV % "\n".join("    " + l for l in body.strip().split("\n"))
