package interp_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/sdoc"
)

// Acts that exercise the writer and the output interceptor; payloads are hexadecimal so that any bytes can be written.

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func init() {
	hooks["gwhex"] = func(st *state, a *sdoc.Act) {
		b := unhex(a.S)
		switch a.V {
		case "printf":
			GinkgoWriter.Printf("%s", b)
		case "print":
			GinkgoWriter.Print(string(b))
		case "println":
			GinkgoWriter.Println(string(b))
			b = append(b, '\n')
		case "fprintf":
			fmt.Fprintf(GinkgoWriter, "%s%d", b, 7)
			b = append(b, '7')
		case "logr":
			GinkgoLogr.WithName("nm").Info("m", "k", a.N)
			b = []byte(fmt.Sprintf("nm \"level\"=0 \"msg\"=\"m\" \"k\"=%d\n", a.N))
		case "logrerr":
			GinkgoLogr.Error(fmt.Errorf("bad %d", a.N), "m")
			b = []byte(fmt.Sprintf("\"msg\"=\"m\" \"error\"=\"bad %d\"\n", a.N))
		default:
			n, err := GinkgoWriter.Write(b)
			if n != len(b) || err != nil {
				emit(sdoc.Event{E: "gwbad", N: st.id, Spec: st.spec, X: fmt.Sprintf("Write of %d bytes returned %d, %v", len(b), n, err)})
			}
			w := string(b)
			for i := range b { // the writer may not keep a reference
				b[i] = '#'
			}
			b = []byte(w)
		}
		emit(sdoc.Event{E: "gwx", N: st.id, Spec: st.spec, Inv: st.inv, X: hex.EncodeToString(b)})
	}
	// gws: one goroutine per element of A ("hex,hex,..."), all writing at once
	hooks["gws"] = func(st *state, a *sdoc.Act) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, l := range a.A {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k, h := range strings.Split(l, ",") {
					b := unhex(h)
					switch k % 3 {
					case 0:
						GinkgoWriter.Write(b)
					case 1:
						fmt.Fprintf(GinkgoWriter, "%s", b)
					case 2:
						GinkgoWriter.Print(string(b))
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		emit(sdoc.Event{E: "gws", N: st.id, Spec: st.spec, Inv: st.inv, X: strings.Join(a.A, ";")})
	}
	// gwbg: keeps writing numbered chunks for the rest of the process
	hooks["gwbg"] = func(st *state, a *sdoc.Act) {
		go func() {
			for i := 0; ; i++ {
				time.Sleep(time.Duration(a.N) * time.Microsecond)
				GinkgoWriter.Printf("\x02bg%d;", i)
			}
		}()
	}
	hooks["teex"] = func(st *state, a *sdoc.Act) {
		b := &lockedBuf{}
		logMu.Lock()
		teeBuf[a.S] = b
		logMu.Unlock()
		GinkgoWriter.TeeTo(b)
		emit(sdoc.Event{E: "teex", N: st.id, Spec: st.spec, Inv: st.inv, X: a.S})
	}
	hooks["unteex"] = func(st *state, a *sdoc.Act) {
		GinkgoWriter.ClearTeeWriters()
		emit(sdoc.Event{E: "unteex", N: st.id, Spec: st.spec, Inv: st.inv})
	}
	hooks["teedumpx"] = func(st *state, a *sdoc.Act) {
		logMu.Lock()
		m := map[string]*lockedBuf{}
		for k, v := range teeBuf {
			m[k] = v
		}
		logMu.Unlock()
		for k, b := range m {
			b.mu.Lock()
			x := hex.EncodeToString(b.b)
			b.mu.Unlock()
			emit(sdoc.Event{E: "teedumpx", N: st.id, Spec: st.spec, X: k + ":" + x})
		}
	}
}

// ---- output interception ----

func origFile(k string) string {
	return filepath.Join(os.Getenv("VERIF_DIR"), fmt.Sprintf("orig%s.%d", k, proc))
}

// divert points the process's standard streams at files, so that what passes the interceptor can be compared.
func divert() {
	if os.Getenv("VERIF_FDFILES") == "" {
		return
	}
	for k, fd := range map[string]int{"1": 1, "2": 2} {
		f, err := os.OpenFile(origFile(k), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			panic(err)
		}
		syscall.Dup2(int(f.Fd()), fd)
		f.Close()
	}
	childFDs(&state{})
}

func undivert() {
	if os.Getenv("VERIF_FDFILES") == "" {
		return
	}
	os.Stdout.WriteString("END1a")
	syscall.Write(1, []byte("END1b"))
	os.Stderr.WriteString("END2a")
	syscall.Write(2, []byte("END2b"))
}

// childFDs logs the descriptors a child process inherits.
func childFDs(st *state) {
	o, err := exec.Command("/bin/sh", "-c", "echo /proc/self/fd/*").Output()
	emit(sdoc.Event{E: "childfds", N: st.id, Spec: st.spec, X: fmt.Sprint(strings.TrimSpace(string(o)), err)})
}

func bulkBytes(tag string, n int) []byte {
	var sb bytes.Buffer
	for i := 0; sb.Len() < n; i++ {
		fmt.Fprintf(&sb, "%s-%07d\n", tag, i)
	}
	return sb.Bytes()
}

func init() {
	hooks["out"] = func(st *state, a *sdoc.Act) {
		b := unhex(a.S)
		v := a.V
		switch a.V {
		case "stdout":
			os.Stdout.Write(b)
		case "stderr":
			os.Stderr.Write(b)
		case "fmt":
			fmt.Printf("%s\n", b)
			b = append(b, '\n')
			v = "stdout"
		case "fd1":
			syscall.Write(1, b)
		case "fd2":
			syscall.Write(2, b)
		case "print": // the builtin, used by the runtime for its own messages
			print(string(b))
			v = "fd2"
		case "bulk":
			b = bulkBytes(string(b), a.N)
			os.Stdout.Write(b)
			v = "stdout"
		case "bulkerr":
			b = bulkBytes(string(b), a.N)
			os.Stderr.Write(b)
			v = "stderr"
		case "child", "childerr":
			cmd := exec.Command("/bin/cat")
			cmd.Stdin = bytes.NewReader(b)
			v = "stdout"
			cmd.Stdout = os.Stdout
			if a.V == "childerr" {
				v = "stderr"
				cmd.Stdout = os.Stderr
			}
			if err := cmd.Run(); err != nil {
				panic(err)
			}
		case "grandchild": // a shell that writes to both through its children
			cmd := exec.Command("/bin/sh", "-c", "(cat) ; printf E >&2")
			cmd.Stdin = bytes.NewReader(b)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if err := cmd.Run(); err != nil {
				panic(err)
			}
			emit(sdoc.Event{E: "out", N: st.id, Spec: st.spec, Inv: st.inv, Att: CurrentSpecReport().NumAttempts, X: "stdout:" + hex.EncodeToString(b)})
			b, v = []byte("E"), "stderr"
		}
		emit(sdoc.Event{E: "out", N: st.id, Spec: st.spec, Inv: st.inv, Att: CurrentSpecReport().NumAttempts, X: v + ":" + hex.EncodeToString(b)})
	}
	hooks["outs"] = func(st *state, a *sdoc.Act) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g, l := range a.A {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, h := range strings.Split(l, ",") {
					if b := unhex(h); g%2 == 0 {
						os.Stdout.Write(b)
					} else {
						os.Stderr.Write(b)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		emit(sdoc.Event{E: "outs", N: st.id, Spec: st.spec, Inv: st.inv, X: strings.Join(a.A, ";")})
	}
	hooks["outpause"] = func(st *state, a *sdoc.Act) {
		PauseOutputInterception()
		emit(sdoc.Event{E: "pause", N: st.id, Spec: st.spec})
	}
	hooks["outresume"] = func(st *state, a *sdoc.Act) {
		ResumeOutputInterception()
		emit(sdoc.Event{E: "resume", N: st.id, Spec: st.spec})
	}
	hooks["outlive"] = func(st *state, a *sdoc.Act) { // a process that keeps the streams open for a while
		emit(sdoc.Event{E: "outlive", N: st.id, Spec: st.spec})
		cmd := exec.Command("/bin/sleep", "2")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		go cmd.Wait()
	}
	hooks["childfds"] = func(st *state, a *sdoc.Act) { childFDs(st) }
}
