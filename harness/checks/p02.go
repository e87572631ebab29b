package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"verifharness/core"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
)

// P02: histories of scans. Every ordered sequence of packages over a library is scanned with one scanner; the oracle
// is the concatenation of what a fresh scanner reports for each package alone.

type libPkg struct {
	name  string
	files []string // bodies without package clause; @ is replaced by a per-file suffix
}

var pad = "\n" + strings.Repeat("// padding padding padding padding\n", 40)

// statefulLib touches every piece of state which rules, trackers and the scanner carry.
var statefulLib = []libPkg{
	{"tls-assign13", []string{"import \"crypto/tls\"\nfunc f@(c *tls.Config) { c.MinVersion = tls.VersionTLS13 }"}},
	{"tls-assign-max10", []string{"import \"crypto/tls\"\nfunc f@(c *tls.Config) { c.MaxVersion = tls.VersionTLS10 }"}},
	{"tls-empty", []string{"import \"crypto/tls\"\nfunc f@() any { return &tls.Config{} }"}},
	{"tls-min12", []string{"import \"crypto/tls\"\nfunc f@() any { return &tls.Config{MinVersion: tls.VersionTLS12} }"}},
	{"tls-max11", []string{"import \"crypto/tls\"\nfunc f@() any { return &tls.Config{MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS11} }"}},
	{"tls-early", []string{"import \"crypto/tls\"\nfunc f@() any { return &tls.Config{MinVersion: tls.VersionTLS13, MaxVersion: tls.VersionTLS13, InsecureSkipVerify: true} }"}},
	{"tls-early-max", []string{"import \"crypto/tls\"\nfunc f@() any { return &tls.Config{MaxVersion: tls.VersionTLS11, PreferServerCipherSuites: false} }"}},
	{"alias-range-far", []string{pad + "func f@(xs []int) (out []int) { for _, x := range xs { out = append(out, x) }; return }"}},
	{"alias-bad", []string{"func f@(xs []int) (out []*int) { for _, x := range xs { out = append(out, &x) }; return }"}},
	{"alias-return", []string{"func f@(xs []int) *int { for _, x := range xs { return &x }; return nil }"}},
	{"alias-cross", []string{"func f@(xs []int) *int { for _, x := range xs { _ = x }; return &g }", "var g int\nfunc h@(xs []int) *int { for _, g = range xs { break }; return &g }"}},
	{"path-clean", []string{"import (\"os\"; \"path/filepath\")\nfunc f@(p string) { q := filepath.Clean(p); b, err := os.ReadFile(q); _, _ = b, err }"}},
	{"path-dirty", []string{"import \"os\"\nfunc f@(p string) { b, err := os.ReadFile(p); _, _ = b, err }"}},
	{"atoi", []string{"import \"strconv\"\nfunc f@(s string) int32 { v, err := strconv.Atoi(s); _ = err; return int32(v) }"}},
	{"atoi-clean", []string{"func f@(v int32) int32 { return int32(v) }"}},
	{"zip", []string{"import (\"compress/gzip\"; \"io\")\nfunc f@(w io.Writer, i io.Reader) { r, err := gzip.NewReader(i); _ = err; n, err := io.Copy(w, r); _, _ = n, err }"}},
	{"copy-clean", []string{"import \"io\"\nfunc f@(w io.Writer, r io.Reader) { n, err := io.Copy(w, r); _, _ = n, err }"}},
	{"lookalike-md5", []string{"import md5 \"crypto/sha256\"\nfunc f@() any { return md5.New() }"}},
	{"lookalike-rand", []string{"import (\"crypto/rand\"; \"math/big\")\nfunc f@() { n, err := rand.Int(rand.Reader, big.NewInt(2)); _, _ = n, err }"}},
	{"real-md5-alias", []string{"import sha256 \"crypto/md5\"\nfunc f@() any { return sha256.New() }"}},
	{"real-sha256", []string{"import \"crypto/sha256\"\nfunc f@() any { return sha256.New() }"}},
	{"real-rand-md5", []string{"import (\"math/rand\"; \"crypto/md5\")\nfunc f@() any { return []any{rand.Int(), md5.New()} }"}},
	{"local-http", []string{"type t@ struct{}\nfunc (t@) Get(string) {}\nfunc f@(u string) { var http t@; http.Get(u) }"}},
	{"real-http", []string{"import \"net/http\"\nfunc f@(u string) { r, err := http.Get(u); _, _ = r, err }"}},
	{"nosec-ssa-first", []string{"func f@(x int) int8 { return int8(x) } // #nosec G115", "func f@(x int) int8 { return int8(x) }"}},
	{"nosec-ssa-last", []string{"func f@(x int) int8 { return int8(x) }", "func f@(x int) int8 { return int8(x) } // #nosec"}},
	{"nosec-md5", []string{"import \"crypto/md5\" // #nosec\nfunc f@() any { return md5.New() } // #nosec G401 -- ok"}},
	{"unsafe-real", []string{"import \"unsafe\"\nfunc f@(p *byte) any { return unsafe.String(p, 1) }"}},
	{"lookalike-noimport", []string{"func f@() int { return unsafe.String(2) + rand.Int() }", "type u struct{}\nfunc (u) String(int) int { return 0 }\nfunc (u) Int() int { return 0 }\nvar unsafe, rand u"}},
	{"sql-cross", []string{"import \"database/sql\"\nfunc f@(db *sql.DB) { r, err := db.Query(\"SELECT * FROM t WHERE n = \" + q); _, _ = r, err }", "const q = \"x\"\nfunc h@() {}"}},
	{"sql-cross-var", []string{"import \"database/sql\"\nfunc f@(db *sql.DB) { r, err := db.Query(\"SELECT * FROM t WHERE n = \" + q); _, _ = r, err }", "var q = \"x\"\nfunc h@() {}"}},
	{"pprof", []string{"import _ \"net/http/pprof\"\nfunc f@() {}"}},
	{"http-noprof", []string{"import \"net/http\"\nfunc f@() any { return http.DefaultServeMux }"}},
	{"nonce", []string{"import \"crypto/cipher\"\nfunc f@(a cipher.AEAD, p []byte) []byte { return a.Seal(nil, []byte(\"ILoveMyNonce\"), p, nil) }"}},
	{"slice", []string{"func f@() byte { s := make([]byte, 2); return s[3] }"}},
	{"archive", []string{"import (\"archive/zip\"; \"path/filepath\")\nfunc f@(z *zip.File, t string) string { n := z.Name; return filepath.Join(t, n) }"}},
	{"archive-clean", []string{"import \"path/filepath\"\nfunc f@(n, t string) string { return filepath.Join(t, n) }"}},
}

func (p libPkg) load(l *core.Loader, occ int) *packages.Package {
	var fs []core.File
	for i, s := range p.files {
		fs = append(fs, core.File{Name: fmt.Sprintf("f%d.go", i), Src: "package p\n" + strings.ReplaceAll(s, "@", fmt.Sprint(i)) + "\n"})
	}
	return l.MustLoad(fmt.Sprintf("p02/%d/%s", occ, p.name), fs...)
}

func p02Lib() []libPkg {
	out := append([]libPkg{}, statefulLib...)
	for _, p := range probes {
		out = append(out, libPkg{"probe-" + p.rule, []string{p.src}})
	}
	return out
}

type p02Result struct {
	keys []string
	m    gosec.Metrics
}

func p02Key(i *issue.Issue) string { return i.File + " " + core.IssueKey(i) }

func p02Scan(track bool, pkgs ...*packages.Package) p02Result {
	is, m := core.Scan(core.Opts{Conf: probeConfig(), Track: track}, pkgs...)
	var ks []string
	for _, i := range is {
		ks = append(ks, p02Key(i))
	}
	sort.Strings(ks)
	return p02Result{ks, *m}
}

func init() {
	core.Register(&core.Check{
		ID: "P02", Level: "model_checking",
		Rule:    "a state is a distinct accumulated report after a prefix of a scan history; every history is executed with one real scanner and compared with the concatenation of isolated scans",
		Bounds:  "histories of the whole library, in three strides from several starting points, and of one or two packages repeated, up to 304 packages; packages: all ordered pairs over 76 packages, all ordered triples over 14 (quick) / 37 (thorough) state-touching packages; files of one package: all ordered pairs (quick) and triples (thorough) of the single-file programs, and all of them at once from every starting point, forwards and backwards",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for i := range p02Lib() {
				u = append(u, fmt.Sprintf("pkg %d", i))
			}
			for i := range statefulLib {
				u = append(u, fmt.Sprintf("file %d", i))
			}
			for i := 0; i < 8; i++ {
				u = append(u, fmt.Sprintf("long %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			os.Setenv("GOSECGOVERSION", "go1.21")
			var kind string
			var n int
			fmt.Sscan(unit, &kind, &n)
			l := getLoader(e)
			if kind == "file" {
				p02Files(e, l, n, r)
				return
			}
			lib := p02Lib()
			pk := map[[2]int]*packages.Package{}
			alone := map[[2]int]p02Result{}
			get := func(i, occ int) *packages.Package { // a repeated program is another package with the same text
				k := [2]int{i, occ}
				if pk[k] == nil {
					pk[k] = lib[i].load(l, occ)
					alone[k] = p02Scan(true, pk[k])
				}
				return pk[k]
			}
			run := func(seq ...int) {
				var ps []*packages.Package
				var names, want []string
				var m gosec.Metrics
				occ := map[int]int{}
				for _, s := range seq {
					ps = append(ps, get(s, occ[s]))
					names = append(names, lib[s].name)
					occ[s]++
				}
				occ = map[int]int{}
				r.Mark(fmt.Sprint(names))
				for _, s := range seq {
					a := alone[[2]int{s, occ[s]}]
					occ[s]++
					want = append(want, a.keys...)
					m.NumFiles += a.m.NumFiles
					m.NumLines += a.m.NumLines
					m.NumNosec += a.m.NumNosec
					m.NumFound += a.m.NumFound
				}
				sort.Strings(want)
				got := p02Scan(true, ps...)
				r.Evals++
				r.Transitions += len(seq)
				r.State(fmt.Sprint(want))
				if core.Join(want) != core.Join(got.keys) {
					r.Violate(strings.Join(names, " "), strings.Join(names, "\n"), "scanning %v with one scanner: %s", names, diffLists(want, got.keys))
				} else if m != got.m {
					r.Violate("metrics "+strings.Join(names, " "), strings.Join(names, "\n"), "scanning %v: metrics %+v, sum of isolated scans %+v", names, got.m, m)
				}
			}
			if kind == "long" {
				p02Long(e, l, n, len(lib), run, r)
				return
			}
			for j := range lib {
				run(n, j)
			}
			r.Sample(fmt.Sprintf("%s then every package: %v", lib[n].name, alone[[2]int{n, 0}].keys))
			lim := 14
			if e.Thorough {
				lim = len(statefulLib)
			}
			if n < lim {
				for j := 0; j < lim; j++ {
					for k := 0; k < lim; k++ {
						run(n, j, k)
					}
				}
			}
		},
	})
}

// p02Long scans long histories: the whole library from every 8th starting point, forwards and backwards, in strides, and
// of one package or two repeated, up to several hundred packages.
func p02Long(e *core.Env, l *core.Loader, n, size int, run func(...int), r *core.Rec) {
	for _, length := range []int{size / 2, size, 2*size + 1, 4 * size} {
		for start := n; start < size; start += 8 {
			if length > size && start > n && !e.Thorough {
				break
			}
			for _, stride := range []int{1, size - 1, 7} {
				var seq []int
				for i, p := 0, start; i < length; i, p = i+1, (p+stride)%size {
					seq = append(seq, p)
				}
				run(seq...)
			}
		}
	}
	for a := n; a < len(statefulLib); a += 8 {
		for _, b := range []int{a, (a + 1) % len(statefulLib)} {
			for _, length := range []int{10, 65, 130} {
				var seq []int
				for i := 0; i < length; i++ {
					seq = append(seq, []int{a, b}[i%2])
				}
				run(seq...)
			}
		}
	}
	r.Sample(fmt.Sprintf("histories of up to %d packages from starting point %d", 4*size, n))
}

// p02Files puts single-file programs into one package, in every order.
func p02Files(e *core.Env, l *core.Loader, n int, r *core.Rec) {
	var single []libPkg
	for _, p := range statefulLib {
		if len(p.files) == 1 {
			single = append(single, p)
		}
	}
	if n >= len(single) {
		return
	}
	run := func(idx ...int) {
		var fs []core.File
		var names, want []string
		for pos, i := range idx {
			s := strings.ReplaceAll(single[i].files[0], "@", fmt.Sprint(pos))
			f := core.File{Name: fmt.Sprintf("f%d.go", pos), Src: "package p\n" + s + "\n"}
			fs = append(fs, f)
			names = append(names, single[i].name)
			want = append(want, p02Scan(false, l.MustLoad("p02/files", f)).keys...)
		}
		r.Mark(fmt.Sprint(names))
		sort.Strings(want)
		got := p02Scan(false, l.MustLoad("p02/files", fs...)).keys
		r.Evals++
		r.Transitions += len(idx)
		r.State("files" + fmt.Sprint(want))
		if core.Join(want) != core.Join(got) {
			r.Violate("files "+strings.Join(names, " "), strings.Join(names, "\n"), "files %v in one package: %s", names, diffLists(want, got))
		}
	}
	all := func(start, stride int) (out []int) {
		for i, p := 0, start; i < len(single); i, p = i+1, (p+stride)%len(single) {
			out = append(out, p)
		}
		return
	}
	run(all(n, 1)...)
	run(all(n, len(single)-1)...)
	for j := range single {
		run(n, j)
		if e.Thorough {
			for k := range single {
				run(n, j, k)
			}
		}
	}
}
