package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The program that writes the word list. It runs unchanged; its requests to
// the dictionary service arrive at a proxy here that answers in its place.

func init() { modes["gen"] = genMode }

var fakeCert = struct {
	sync.Once
	pem  []byte
	cert tls.Certificate
}{}

func serviceCert() ([]byte, tls.Certificate) {
	fakeCert.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		t := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"},
			NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
			DNSNames: []string{"uakci.pl", "*.uakci.pl"}, IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		check(err)
		fakeCert.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		fakeCert.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
	return fakeCert.pem, fakeCert.cert
}

func genMode(c caseIn, v map[string]bool) J {
	r := base(c)
	how, body := dictReply(c)
	caPEM, cert := serviceCert()
	dir, err := os.MkdirTemp("", "toaqgen")
	check(err)
	defer os.RemoveAll(dir)
	ca := filepath.Join(dir, "ca.pem")
	check(os.WriteFile(ca, caPEM, 0644))

	var mu sync.Mutex
	posts, right := 0, true
	answer := func(conn net.Conn, q *http.Request, b []byte) {
		mu.Lock()
		posts++
		var m map[string]interface{}
		err := json.Unmarshal(b, &m)
		right = right && err == nil && q.Method == http.MethodPost && strings.HasPrefix(q.Header.Get("Content-Type"), "application/json") &&
			len(m) == 2 && m["action"] == "search" && m["query"] == "*" && strings.HasPrefix(q.Host, "uakci.pl") && q.URL.Path == "/toadua/api"
		mu.Unlock()
		n := len(body)
		send := body
		switch how {
		case "drop":
			return
		case "short":
			n, send = n+10, body[:n/2]
		}
		fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", n)
		conn.Write(send)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	defer l.Close()
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				br := bufio.NewReader(conn)
				q, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				if q.Method != http.MethodConnect {
					b, _ := io.ReadAll(q.Body)
					answer(conn, q, b)
					return
				}
				if how == "down" {
					fmt.Fprint(conn, "HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n")
					return
				}
				fmt.Fprint(conn, "HTTP/1.1 200 OK\r\n\r\n")
				t := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"http/1.1"}})
				defer t.Close()
				q, err = http.ReadRequest(bufio.NewReader(t))
				if err != nil {
					return
				}
				b, _ := io.ReadAll(q.Body)
				answer(t, q, b)
			}()
		}
	}()

	path := filepath.Join(dir, "words.go")
	const before = "package dict\n\n// What was there before, and it is rather long, so that the new words do not cover it.\nvar Words = map[string]Word{}\n"
	switch file, _ := c["file"].(string); file {
	case "old":
		check(os.WriteFile(path, []byte(before+strings.Repeat("// more\n", 400)), 0644))
	case "nodir":
		path = filepath.Join(dir, "none", "words.go")
	case "dir":
		path = dir
	}
	old, olderr := os.ReadFile(path)
	cmd := child(exec.Command(exePath("dictgen"), "-o", path))
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.Contains(strings.ToUpper(strings.SplitN(e, "=", 2)[0]), "PROXY") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	proxy := "http://" + l.Addr().String()
	cmd.Env = append(cmd.Env, "HTTPS_PROXY="+proxy, "HTTP_PROXY="+proxy, "SSL_CERT_FILE="+ca, "SSL_CERT_DIR="+dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	check(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		cmd.Process.Kill()
		<-done
		note(r, "dictgen", "does not end")
	}
	now, nowerr := os.ReadFile(path)
	r["exit"], r["msg"] = cmd.ProcessState.ExitCode(), cps(out.String())
	mu.Lock()
	r["posts"], r["right"] = posts, right
	mu.Unlock()
	r["same"] = (olderr == nil) == (nowerr == nil) && bytes.Equal(old, now)
	r["src"], r["fmt"], r["words"] = "none", true, []J{}
	if nowerr == nil && r["same"] == false {
		words, why := wordsIn(now)
		r["src"], r["words"] = why, words
		nice, err := format.Source(now)
		r["fmt"] = err == nil && bytes.Equal(bytes.TrimSpace(nice), bytes.TrimSpace(now))
	}
	return r
}

// wordsIn gives the words that a Go file declares, as the compiler sees it.
func wordsIn(src []byte) (out []J, why string) {
	out = []J{}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "words.go", src, 0)
	if err != nil {
		return out, "not Go: " + err.Error()
	}
	if f.Name.Name != "dict" {
		return out, "package " + f.Name.Name
	}
	stub, err := parser.ParseFile(fset, "dict.go", "package dict\n\ntype Word struct {\nWord string\nDef string\nBy string\nScore int\n}\n", 0)
	check(err)
	info := &types.Info{Types: map[goast.Expr]types.TypeAndValue{}}
	pkg, err := (&types.Config{}).Check("dict", fset, []*goast.File{f, stub}, info)
	if err != nil {
		return out, "does not compile: " + err.Error()
	}
	w := pkg.Scope().Lookup("Words")
	if w == nil || w.Type().String() != "map[string]dict.Word" {
		return out, "no map of words"
	}
	var lit *goast.CompositeLit
	goast.Inspect(f, func(n goast.Node) bool {
		if s, ok := n.(*goast.ValueSpec); ok && len(s.Names) == 1 && s.Names[0].Name == "Words" && len(s.Values) == 1 {
			lit, _ = s.Values[0].(*goast.CompositeLit)
		}
		return true
	})
	if lit == nil {
		return out, "no list of words"
	}
	val := func(e goast.Expr) constant.Value { return info.Types[e].Value }
	str := func(e goast.Expr) string {
		if x := val(e); x != nil && x.Kind() == constant.String {
			return constant.StringVal(x)
		}
		return "?"
	}
	names := []string{"Word", "Def", "By", "Score"}
	for _, e := range lit.Elts {
		kv := e.(*goast.KeyValueExpr)
		j := J{"key": cps(str(kv.Key)), "word": []int{}, "body": []int{}, "by": []int{}, "score": 0}
		v, ok := kv.Value.(*goast.CompositeLit)
		if !ok {
			return out, "an entry that is not written out"
		}
		for i, x := range v.Elts {
			name := ""
			if k, ok := x.(*goast.KeyValueExpr); ok {
				name, x = k.Key.(*goast.Ident).Name, k.Value
			} else {
				name = names[i]
			}
			switch name {
			case "Word":
				j["word"] = cps(str(x))
			case "Def":
				j["body"] = cps(str(x))
			case "By":
				j["by"] = cps(str(x))
			case "Score":
				if c := val(x); c != nil {
					n, _ := constant.Int64Val(constant.ToInt(c))
					j["score"] = int(n)
				}
			}
		}
		out = append(out, j)
	}
	sort.SliceStable(out, func(a, b int) bool {
		return uncps(out[a]["key"].([]int)) < uncps(out[b]["key"].([]int))
	})
	return out, "words"
}
