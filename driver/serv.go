package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/dict"
	"github.com/eaburns/toaq/logic"
)

// The programs built from /repo: web service, chat bot, command.

func init() {
	modes["serve"] = serveMode
	modes["bot"] = botMode
	modes["dict"] = dictMode
	modes["words"] = wordsMode
	modes["cli"] = cliMode
}

func exePath(name string) string {
	exe, err := os.Executable()
	check(err)
	return filepath.Join(filepath.Dir(exe), name)
}

const repo = "/repo"

// child makes the process end with the driver.
func child(cmd *exec.Cmd) *exec.Cmd {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// runes is how a string arrives through JSON: bad bytes are replaced.
func runes(s string) string { return string([]rune(s)) }

// long puts a run of pad commas in place of each comma; short undoes it.
func long(s string, pad int) string {
	if pad == 0 {
		return s
	}
	return strings.ReplaceAll(s, ",", strings.Repeat(",", pad))
}

func short(s string, pad int) string {
	if pad == 0 {
		return s
	}
	return strings.ReplaceAll(s, strings.Repeat(",", pad), ",")
}

// What the libraries give for a text.
type libOut struct {
	err, fail, parse, tree string
	stmt                   string
}

func libOf(s string) (l libOut) {
	guard(func() {
		p := ast.NewParser(s)
		t, err := p.Tree()
		if err != nil {
			l.err = err.Error()
			f := err.Tree()
			peg.DedupFails(f)
			var b bytes.Buffer
			peg.PrettyWrite(&b, f)
			l.fail = b.String()
			return
		}
		l.parse = peg.Pretty(t)
		text, err := p.Text()
		if err != nil {
			return
		}
		l.tree = pretty.String(text)
		guard(func() {
			st := logic.Interpret(text)
			if st != nil {
				logic.NillOutAST(st)
				l.stmt = pretty.String(st)
			}
		})
	})
	return l
}

// ----- The web service -----

type service struct {
	sync.Mutex
	cmd  *exec.Cmd
	addr string
	dead chan bool
	cl   *http.Client
}

var theService service

func (s *service) get() (string, *http.Client, chan bool) {
	s.Lock()
	defer s.Unlock()
	if s.cmd != nil {
		select {
		case <-s.dead:
			s.cmd = nil
		default:
			return s.addr, s.cl, s.dead
		}
	}
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		check(err)
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s.addr = fmt.Sprintf("127.0.0.1:%d", port)
		s.cmd = child(exec.Command(exePath("server")))
		s.cmd.Dir = repo
		s.cmd.Env = append(os.Environ(), fmt.Sprintf("PORT=%d", port))
		check(s.cmd.Start())
		dead := make(chan bool)
		s.dead = dead
		cmd := s.cmd
		go func() { cmd.Wait(); close(dead) }()
		s.cl = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
		for i := 0; i < 1000; i++ {
			c, err := net.Dial("tcp", s.addr)
			if err == nil {
				c.Close()
				return s.addr, s.cl, s.dead
			}
			time.Sleep(10 * time.Millisecond)
			select {
			case <-dead:
				i = 1000
			default:
			}
		}
	}
	check(fmt.Errorf("the service does not start"))
	return "", nil, nil
}

func pageOf() (string, error) {
	t, err := template.ParseFiles(filepath.Join(repo, "server", "template"))
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = t.ExecuteTemplate(&b, "template", nil)
	return b.String(), err
}

// slowReader gives its text in pieces, pausing in between.
type slowReader struct {
	b []byte
	n int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	time.Sleep(time.Millisecond)
	return n, nil
}

// serveMode: groups of concurrent requests, group after group.
func serveMode(c caseIn, v map[string]bool) J {
	r := base(c)
	reqs, _ := c["reqs"].([]interface{})
	got := make([]J, len(reqs))
	addr, cl, dead := theService.get()
	one := func(q caseIn) J {
		pad := q.num("pad")
		body := long(q.text("s"), pad)
		how, _ := q["how"].(string)
		method, _ := q["m"].(string)
		path, _ := q["p"].(string)
		a := J{"ans": false, "status": 0, "keys": []string{}, "br": []int{}, "text": []int{}, "logic": []int{}, "lib": true, "same": true}
		if how == "abort" {
			// A request that is given up half way: no answer is expected.
			conn, err := net.Dial("tcp", addr)
			if err == nil {
				fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body)+5, body)
				conn.Close()
			}
			return a
		}
		var rd io.Reader = strings.NewReader(body)
		if how == "slow" {
			rd = &slowReader{[]byte(body), 1 + len(body)/3}
		}
		if method != http.MethodPost && method != http.MethodPut {
			rd = nil
		}
		req, err := http.NewRequest(method, "http://"+addr+path, rd)
		check(err)
		resp, err := cl.Do(req)
		if err != nil {
			a["msg"] = err.Error()
			return a
		}
		defer resp.Body.Close()
		data, err := io.ReadAll(resp.Body)
		if err != nil {
			a["msg"] = err.Error()
			return a
		}
		a["ans"], a["status"] = true, resp.StatusCode
		switch {
		case resp.StatusCode != 200:
		case strings.HasPrefix(path, "/font/"):
			want, err := os.ReadFile(filepath.Join(repo, "server", path))
			a["same"] = err == nil && bytes.Equal(want, data)
		case method == http.MethodGet:
			want, err := pageOf()
			a["same"] = err == nil && want == string(data)
		case method == http.MethodPost:
			var m map[string]interface{}
			if err := json.Unmarshal(data, &m); err != nil {
				a["same"], a["msg"] = false, "answer is not JSON: "+err.Error()
				return a
			}
			keys := []string{}
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			a["keys"] = keys
			str := func(k string) string { s, _ := m[k].(string); return s }
			a["br"], a["text"], a["logic"] = cps(short(str("Braces"), pad)), cps(short(str("Text"), pad)), cps(short(str("Logic"), pad))
			l := libOf(body)
			a["lib"] = str("Error") == runes(l.err) && str("Parse") == runes(l.parse) && str("AST") == runes(l.tree)
		}
		return a
	}
	// Groups have consecutive numbers.
	for i := 0; i < len(reqs); {
		g := num(reqs[i].(map[string]interface{})["g"])
		var wg sync.WaitGroup
		j := i
		for ; j < len(reqs) && num(reqs[j].(map[string]interface{})["g"]) == g; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				got[j] = one(caseIn(reqs[j].(map[string]interface{})))
			}(j)
		}
		wg.Wait()
		i = j
	}
	r["died"] = false
	select {
	case <-dead:
		r["died"] = true
	default:
	}
	r["got"] = got
	return r
}

// ----- The chat bot -----

type botEvent struct {
	C, T, Nick, Name, ID string
	Text                 []byte
	From, Reply          bool
}

type botDone struct {
	T, C, G string
	Text    []byte
}

// botMode: one bot per case; sends events, in order or as fast as possible,
// and records the bot's actions.
func botMode(c caseIn, v map[string]bool) J {
	r := base(c)
	evs, _ := c["evs"].([]interface{})
	nch := c.num("nch")
	pad := c.num("pad")
	chans := []string{}
	for i := 1; i <= nch; i++ {
		chans = append(chans, fmt.Sprintf("ch%d", i))
	}
	inR, inW, err := os.Pipe()
	check(err)
	outR, outW, err := os.Pipe()
	check(err)
	cmd := child(exec.Command(exePath("bot")))
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "DISCORD_TOKEN=tok", "DISCORD_SERVER=guild", "DISCORD_CHANS="+strings.Join(chans, ","))
	cmd.ExtraFiles = []*os.File{inR, outW}
	check(cmd.Start())
	inR.Close()
	outW.Close()
	dead := make(chan bool)
	go func() { cmd.Wait(); close(dead) }()

	var mu sync.Mutex
	log := []J{}
	recv, sent, said := map[string]int{}, map[string]int{}, 0
	last := time.Now()
	joins := []string{}
	other := false
	readDone := make(chan bool)
	go func() {
		defer close(readDone)
		sc := bufio.NewScanner(outR)
		sc.Buffer(make([]byte, 1<<16), 1<<26)
		for sc.Scan() {
			var d botDone
			check(json.Unmarshal(sc.Bytes(), &d))
			mu.Lock()
			last = time.Now()
			switch d.T {
			case "dial":
				other = other || d.G != "tok"
			case "join":
				joins = append(joins, d.C)
				other = other || d.G != "guild"
			case "recv":
				recv[d.C]++
			case "got":
			case "say":
				said++
				log = append(log, J{"t": "say", "c": d.C, "text": cps(short(string(d.Text), pad))})
			default:
				other = true
			}
			mu.Unlock()
		}
	}()
	alive := func() bool {
		select {
		case <-dead:
			return false
		default:
			return true
		}
	}
	// wait until a condition holds, or the bot is dead, or too much time has passed.
	wait := func(limit time.Duration, f func() bool) {
		end := time.Now().Add(limit)
		for time.Now().Before(end) && alive() {
			mu.Lock()
			ok := f()
			mu.Unlock()
			if ok {
				return
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	wait(10*time.Second, func() bool {
		for _, ch := range chans {
			if recv[ch] == 0 {
				return false
			}
		}
		return true
	})
	enc := json.NewEncoder(inW)
	expect := 0
	for i, x := range evs {
		e := caseIn(x.(map[string]interface{}))
		ch := chans[(e.num("c")-1)%nch]
		be := botEvent{C: ch, T: e["t"].(string), Nick: e["nick"].(string), Name: "Some One", ID: fmt.Sprint(i), Text: []byte(long(e.text("s"), pad)),
			From: e["from"].(bool), Reply: e["reply"].(bool)}
		mu.Lock()
		sent[ch]++
		n := sent[ch]
		log = append(log, J{"t": "ev", "c": ch, "i": i + 1})
		mu.Unlock()
		if enc.Encode(be) != nil {
			break
		}
		if e["ask"].(bool) {
			expect++
		}
		e["lib"] = cps(libOf(long(e.text("in"), pad)).err)
		if b, _ := c["seq"].(bool); b {
			want := expect
			wait(5*time.Second, func() bool { return recv[ch] > n && said >= want })
		}
	}
	wait(10*time.Second, func() bool {
		for _, ch := range chans {
			if recv[ch] <= sent[ch] {
				return false
			}
		}
		return said >= expect && time.Since(last) > 20*time.Millisecond
	})
	r["died"] = !alive()
	inW.Close()
	cmd.Process.Kill()
	<-dead
	<-readDone
	outR.Close()
	r["evs"], r["log"], r["joins"], r["chans"], r["other"] = evs, log, joins, chans, other
	return r
}

// ----- The dictionary -----

// dictReply: the body of the described reply.
func dictReply(c caseIn) (string, []byte) {
	how, _ := c["how"].(string)
	reply := map[string]interface{}{}
	if s, _ := c["success"].(string); s == "yes" || s == "no" {
		reply["success"] = s == "yes"
	}
	rows := []interface{}{}
	es, _ := c["ents"].([]interface{})
	for i, x := range es {
		e := caseIn(x.(map[string]interface{}))
		row := map[string]interface{}{"head": e.text("head"), "body": e.text("body"), "by": e.text("by"), "score": e.num("score")}
		if c["extra"] == true {
			row["id"], row["votes"] = fmt.Sprint(i), map[string]interface{}{"a": 1, "head": "x"}
		}
		rows = append(rows, row)
	}
	// The whole list so many times over.
	if n := c.num("times"); n > 1 {
		once := rows
		for rows = []interface{}{}; n > 0; n-- {
			rows = append(rows, once...)
		}
	}
	switch c["data"] {
	case "list":
		reply["data"] = rows
	case "null":
		reply["data"] = nil
	case "string":
		reply["data"] = "none"
	}
	if e, ok := c["error"].([]interface{}); ok && c["haserr"] == true {
		reply["error"] = uncps(toInts(e))
	}
	body, err := json.Marshal(reply)
	check(err)
	switch how {
	case "cut":
		body = body[:len(body)*c.num("cut")/100]
	case "junk":
		body = []byte("<html>502 Bad Gateway</html>")
	case "array":
		body = []byte("[" + string(body) + "]")
	case "empty":
		body = nil
	}
	return how, body
}

// dictMode: a service that gives the described reply.
func dictMode(c caseIn, v map[string]bool) J {
	r := base(c)
	query := c.text("query")
	how, body := dictReply(c)
	var method, ctype, gotq string
	var calls int64
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		atomic.AddInt64(&calls, 1)
		b, _ := io.ReadAll(q.Body)
		method, ctype, gotq = q.Method, q.Header.Get("Content-Type"), string(b)
		if how == "drop" {
			if h, ok := w.(http.Hijacker); ok {
				conn, _, err := h.Hijack()
				if err == nil {
					conn.Close()
				}
			}
			return
		}
		if how == "short" {
			// Announces more than it sends.
			w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			w.Write(body[:len(body)/2])
			return
		}
		w.Write(body)
	}))
	url := srv.URL
	if how == "down" {
		srv.Close()
	} else {
		defer srv.Close()
	}
	var ws map[string]dict.Word
	var lerr error
	note(r, "Load", guard(func() { ws, lerr = dict.Load(url, query) }))
	r["ok"] = lerr == nil
	msg := ""
	if lerr != nil {
		msg = lerr.Error()
	}
	r["msg"] = cps(msg)
	keys := []string{}
	for k := range ws {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []J{}
	for _, k := range keys {
		w := ws[k]
		out = append(out, J{"key": cps(k), "word": cps(w.Word), "body": cps(w.Def), "by": cps(w.By), "score": w.Score})
	}
	r["words"] = out
	r["posted"] = how == "down" || how == "drop" || (method == http.MethodPost && ctype == "application/json" && gotq == query && calls == 1)
	return r
}

var sortedWords = struct {
	sync.Once
	keys []string
}{}

// wordsMode: a part of the built-in dictionary.
func wordsMode(c caseIn, v map[string]bool) J {
	r := base(c)
	sortedWords.Do(func() {
		for k := range dict.Words {
			sortedWords.keys = append(sortedWords.keys, k)
		}
		sort.Strings(sortedWords.keys)
	})
	out := []J{}
	n, of := c.num("part"), c.num("parts")
	for i, k := range sortedWords.keys {
		if i%of == n {
			out = append(out, J{"key": cps(k), "word": cps(dict.Words[k].Word)})
		}
	}
	r["words"] = out
	return r
}

// ----- The command -----

func cliMode(c caseIn, v map[string]bool) J {
	r := base(c)
	pad := c.num("pad")
	s := long(c.text("s"), pad)
	how, _ := c["how"].(string)
	dir, err := os.MkdirTemp("", "toaqcli")
	check(err)
	defer os.RemoveAll(dir)
	path := ""
	cmd := child(exec.Command(exePath("toaq")))
	cmd.Dir = dir
	switch how {
	case "stdin":
		cmd.Stdin = strings.NewReader(s)
	case "file":
		path = filepath.Join(dir, "text.toaq")
		check(os.WriteFile(path, []byte(s), 0644))
	case "relative":
		path = "a text.toaq"
		check(os.WriteFile(filepath.Join(dir, path), []byte(s), 0644))
	case "missing":
		path = filepath.Join(dir, "nothing")
	case "dir":
		path = dir
	}
	if path != "" {
		cmd.Args = append(cmd.Args, path)
		cmd.Stdin = strings.NewReader("mai ji")
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	check(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		cmd.Process.Kill()
		<-done
		note(r, "cli", "does not end")
	}
	r["exit"] = cmd.ProcessState.ExitCode()
	got := out.String()
	l := libOf(s)
	r["lib"], r["some"], r["rest"] = true, len(got) > 0, []int{}
	if how == "missing" || how == "dir" {
		return r
	}
	if l.err != "" {
		r["lib"] = got == l.fail+"\n"+path+l.err+"\n"
		return r
	}
	head := l.parse + "\n" + l.tree + "\n"
	r["lib"] = strings.HasPrefix(got, head)
	if r["lib"] == true {
		rest := got[len(head):]
		if l.stmt != "" {
			// The dumped formula, once, becomes one mark.
			rest = strings.Replace(rest, l.stmt+"\n", "\x00\n", 1)
		}
		r["rest"] = cps(short(rest, pad))
	}
	return r
}
