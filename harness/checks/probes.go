package checks

import (
	"strings"

	"github.com/securego/gosec/v2"
)

// probe is a small package on which a rule fires (other rules may fire on it too).
type probe struct {
	rule string
	src  string
	conf map[string]any // extra configuration the rule needs
}

// probes has one firing program per rule, written from the rule descriptions.
var probes = []probe{
	{"G101", `
func f() string { password := "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"; return password }`, nil},
	{"G102", `
import "net"
func f() { l, _ := net.Listen("tcp", "0.0.0.0:2000"); _ = l }`, nil},
	{"G103", `
import "unsafe"
func f(x *int) uintptr { return uintptr(unsafe.Pointer(x)) }`, nil},
	{"G104", `
func g() error { return nil }
func f() { g() }`, nil},
	{"G106", `
import "golang.org/x/crypto/ssh"
func f() any { return ssh.InsecureIgnoreHostKey() }`, nil},
	{"G107", `
import "net/http"
func f(u string) (*http.Response, error) { return http.Get(u) }`, nil},
	{"G108", `
import _ "net/http/pprof"
func f() {}`, nil},
	{"G109", `
import "strconv"
func f(s string) int32 { v, err := strconv.Atoi(s); if err != nil { return 0 }; return int32(v) }`, nil},
	{"G110", `
import ("compress/zlib"; "io"; "os")
func f(i io.Reader) error { r, err := zlib.NewReader(i); if err != nil { return err }; _, err = io.Copy(os.Stdout, r); return err }`, nil},
	{"G111", `
import "net/http"
func f() http.Handler { return http.FileServer(http.Dir("/")) }`, nil},
	{"G112", `
import "net/http"
func f() *http.Server { return &http.Server{Addr: ":80"} }`, nil},
	{"G114", `
import "net/http"
func f() error { return http.ListenAndServe(":80", nil) }`, nil},
	{"G115", `
func f(x int64) int8 { return int8(x) }`, nil},
	{"G201", `
import ("database/sql"; "fmt")
func f(db *sql.DB, s string) (*sql.Rows, error) { q := fmt.Sprintf("SELECT * FROM foo where name = '%s'", s); r, err := db.Query(q); return r, err }`, nil},
	{"G202", `
import ("database/sql"; "os")
func f(db *sql.DB) (*sql.Rows, error) { r, err := db.Query("SELECT * FROM foo WHERE name = " + os.Args[1]); return r, err }`, nil},
	{"G203", `
import "html/template"
func f(s string) any { return template.HTML(s) }`, nil},
	{"G204", `
import ("os"; "os/exec")
func f() *exec.Cmd { return exec.Command(os.Args[1]) }`, nil},
	{"G301", `
import "os"
func f() error { return os.Mkdir("/tmp/x", 0777) }`, nil},
	{"G302", `
import "os"
func f() error { return os.Chmod("/tmp/x", 0777) }`, nil},
	{"G303", `
import "os"
func f() error { return os.WriteFile("/tmp/demo2", nil, 0600) }`, nil},
	{"G304", `
import "os"
func f(p string) ([]byte, error) { return os.ReadFile(p) }`, nil},
	{"G305", `
import ("archive/zip"; "path/filepath")
func f(z *zip.File, t string) string { return filepath.Join(t, z.Name) }`, nil},
	{"G306", `
import "os"
func f() error { return os.WriteFile("x", nil, 0644) }`, nil},
	{"G307", `
import "os"
func f() (*os.File, error) { return os.Create("x") }`, map[string]any{"G307": "0o600"}},
	{"G401", `
import "crypto/md5"
func f() any { return md5.New() }`, nil},
	{"G402", `
import "crypto/tls"
func f() *tls.Config { return &tls.Config{InsecureSkipVerify: true} }`, nil},
	{"G403", `
import ("crypto/rand"; "crypto/rsa")
func f() (*rsa.PrivateKey, error) { return rsa.GenerateKey(rand.Reader, 1024) }`, nil},
	{"G404", `
import "math/rand"
func f() int { return rand.Int() }`, nil},
	{"G405", `
import "crypto/des"
func f(k []byte) any { c, err := des.NewCipher(k); if err != nil { return nil }; return c }`, nil},
	{"G406", `
import "golang.org/x/crypto/md4"
func f() any { return md4.New() }`, nil},
	{"G407", `
import "crypto/cipher"
func f(a cipher.AEAD, p []byte) []byte { return a.Seal(nil, []byte("ILoveMyNonce"), p, nil) }`, nil},
	{"G501", `
import "crypto/md5"
const f = md5.Size`, nil},
	{"G502", `
import "crypto/des"
const f = des.BlockSize`, nil},
	{"G503", `
import "crypto/rc4"
var f rc4.KeySizeError`, nil},
	{"G504", `
import "net/http/cgi"
var f cgi.Handler`, nil},
	{"G505", `
import "crypto/sha1"
const f = sha1.Size`, nil},
	{"G506", `
import "golang.org/x/crypto/md4"
const f = md4.Size`, nil},
	{"G507", `
import "golang.org/x/crypto/ripemd160"
const f = ripemd160.Size`, nil},
	{"G601", `
func f(xs []int) []*int { var out []*int; for _, x := range xs { out = append(out, &x) }; return out }`, nil},
	{"G602", `
func f() byte { s := make([]byte, 2); return s[3] }`, nil},
}

func probeOf(rule string) probe {
	for _, p := range probes {
		if p.rule == rule {
			return p
		}
	}
	panic("no probe for " + rule)
}

// text is the probe as a file of package name.
func (p probe) text(name string) string { return "package " + name + "\n" + p.src + "\n" }

// needsStub says whether the probe imports a package outside the standard library.
func (p probe) needsStub() bool { return strings.Contains(p.src, "golang.org/") }

// config is a fresh configuration carrying the settings every probe needs.
func probeConfig() gosec.Config {
	c := gosec.NewConfig()
	for _, p := range probes {
		for k, v := range p.conf {
			c.Set(k, v)
		}
	}
	return c
}
