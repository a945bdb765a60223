package gopdf

// Native side of the harness intrinsics. The symbolic engine intercepts these
// functions by name; the bodies here run when a path is replayed on the
// compiled code (inputs come from the solver's model).

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
)

type vInVal struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}
type vJob struct {
	H    string   `json:"h"`
	In   []vInVal `json:"in"`
	Tier int      `json:"tier"`
}
type vRes struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Msgs   []string `json:"msgs"`
	Obs    []string `json:"obs"`
	Labels []string `json:"labels"`
}

var vHarnesses = map[string]func(){}
var vCur *vJob
var vOut *vRes
var vPos int

type vStop struct{ s string }

func vNext(name, kind string) uint64 {
	if vPos >= len(vCur.In) {
		panic(vStop{"diverged"})
	}
	in := vCur.In[vPos]
	if in.K != kind || in.N != name {
		panic(vStop{"diverged"})
	}
	vPos++
	u, err := strconv.ParseUint(in.V, 16, 64)
	if err != nil {
		panic(vStop{"diverged"})
	}
	return u
}

func vInt(name string, lo, hi int) int           { return int(int64(vNext(name, "int"))) }
func vFloat(name string, lo, hi float64) float64 { return math.Float64frombits(vNext(name, "float")) }
func vBool(name string) bool                     { return vNext(name, "bool") != 0 }
func vChoice(name string, n int) int {
	if n <= 1 {
		vNext(name, "choice")
		return 0
	}
	return int(vNext(name, "choice"))
}
func vRune(name string, lo, hi rune) rune { return rune(vNext(name, "rune")) }
func vByte(name string) byte              { return byte(vNext(name, "byte")) }
func vBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vNext(name, "byte"))
	}
	return b
}
func vBlob(name string, lo, hi int) []byte {
	n := int(vNext(name, "blob"))
	r := make([]byte, n)
	h := uint32(2166136261)
	for i := range r {
		h = (h ^ uint32(i*7+len(name))) * 16777619
		r[i] = byte(h >> 13)
	}
	return r
}
func vAssume(c bool) {
	if !c {
		panic(vStop{"assume"})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		if len(vOut.Msgs) < 20 {
			vOut.Msgs = append(vOut.Msgs, msg)
		}
		vOut.Status = "fail"
	}
}
func vReach(label string)              { vOut.Labels = append(vOut.Labels, label) }
func vObs(label, v string)             { vOut.Obs = append(vOut.Obs, label+"="+v) }
func vObsI(label string, v int)        { vObs(label, strconv.Itoa(v)) }
func vObsF(label string, v float64)    { vObs(label, fmt.Sprintf("%.9g", v)) }
func vObsB(label string, v bool)       { vObs(label, fmt.Sprint(v)) }
func vObsS(label string, v string)     { vObs(label, fmt.Sprintf("%x", v)) }
func vObsBytes(label string, v []byte) { vObs(label, fmt.Sprintf("%x", v)) }
func vNear(a, b, tol float64) bool     { return a == b || math.Abs(a-b) <= tol }
func vAnd(a, b bool) bool              { return a && b }
func vOr(a, b bool) bool               { return a || b }
func vImplies(a, b bool) bool          { return !a || b }
func vIteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vIteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func vStrEq(a, b string) bool { return a == b }
func vConc(n int) int         { return n }
func vMapOrder(on bool)       {}
func vMaxAlloc() int          { return 0 }
func vGC()                    { runtime.GC() }
func vSymbolic() bool         { return false }
func vTier() int              { return vCur.Tier }

// vTok is one lexical token of PDF syntax.
type vTok struct {
	K   byte // n / ( < k s x e [ ] d D
	S   string
	I   int
	F   float64
	T   bool // name with numeric tail in I
	Int bool
	Off int
	End int
}

func vTokens(b []byte, file bool) []vTok {
	ts := zTokenize([]zSeg{{Lit: string(b), Ref: -1}}, file)
	out := make([]vTok, len(ts))
	off := func(s, i int) int {
		if s > 0 {
			return len(b)
		}
		return i
	}
	for k, t := range ts {
		o := vTok{K: t.K, Off: off(t.Seg, t.In), End: off(t.ESeg, t.EIn)}
		switch t.K {
		case 'n':
			o.S = t.S
			o.F, _ = strconv.ParseFloat(t.S, 64)
			if n, err := strconv.Atoi(t.S); err == nil {
				o.I = n
				o.Int = true
			}
		case '/':
			o.S = t.S
			if t.Tail {
				o.T = true
				o.I, _ = strconv.Atoi(t.Raw[0].Lit)
			}
		case 'k':
			o.S = t.S
		case '(', '<', 's', 'x', 'e':
			for _, r := range t.Raw {
				o.S += r.Lit
			}
		}
		out[k] = o
	}
	return out
}
func vInflate(b []byte) ([]byte, bool) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	o, err := io.ReadAll(r)
	if err != nil {
		return nil, false
	}
	return o, true
}

// vFlevel is the class of compression level that a zlib stream names (-1: unknown).
func vFlevel(b []byte) int {
	if len(b) < 2 {
		return -1
	}
	return int(b[1] >> 6)
}
func vDeflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}
func vCRC(b []byte) []byte {
	c := crc32.ChecksumIEEE(b)
	return []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}
}
func vAdler(b []byte) []byte {
	c := adler32.Checksum(b)
	return []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}
}
func vMD5(b []byte) []byte { s := md5.Sum(b); return s[:] }
func vRC4(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		return nil
	}
	o := make([]byte, len(data))
	c.XORKeyStream(o, data)
	return o
}
func vBytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

// vFile makes a file of the name in a scratch directory and returns its path.
func vFile(name string, b []byte) string {
	if vTmp == "" {
		d, err := os.MkdirTemp(filepath.Dir(os.Args[1]), "files")
		if err != nil {
			panic(vStop{"diverged"})
		}
		vTmp = d
	}
	p := filepath.Join(vTmp, name)
	if os.MkdirAll(filepath.Dir(p), 0700) != nil || os.WriteFile(p, b, 0600) != nil {
		panic(vStop{"diverged"})
	}
	return p
}

var vTmp string

// VerifRunnerMain replays jobs listed in a JSON file.
func VerifRunnerMain() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		os.Exit(3)
	}
	var jobs []vJob
	if json.Unmarshal(b, &jobs) != nil {
		os.Exit(3)
	}
	for i := range jobs {
		r := vRunJob(&jobs[i])
		r.I = i
		o, _ := json.Marshal(r)
		fmt.Printf("\n@@R %s\n", o)
	}
}

func vRunJob(j *vJob) (res *vRes) {
	vCur, vPos = j, 0
	res = &vRes{Status: "ok"}
	vOut = res
	defer func() {
		if vTmp != "" {
			os.RemoveAll(vTmp)
			vTmp = ""
		}
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				if res.Status == "ok" {
					res.Status = s.s
				}
				return
			}
			res.Status = "panic"
			res.Msgs = append(res.Msgs, fmt.Sprint(r))
		}
	}()
	h := vHarnesses[j.H]
	if h == nil {
		res.Status = "diverged"
		return
	}
	h()
	return
}

// vUnescOp is the engine's value of a literal string token of unknown bytes.
func vUnescOp(s string) (string, bool) { return "", false }

// vUnesc is the value of a literal string token.
func vUnesc(s string) string {
	if r, ok := vUnescOp(s); ok {
		return r
	}
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\r' {
			c = '\n'
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
		} else if c == '\\' && i+1 < len(s) {
			i++
			c = s[i]
			switch {
			case c == 'n':
				c = '\n'
			case c == 'r':
				c = '\r'
			case c == 't':
				c = '\t'
			case c == 'b':
				c = '\b'
			case c == 'f':
				c = '\f'
			case c >= '0' && c <= '7':
				v := 0
				k := 0
				for k < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7' {
					v = v*8 + int(s[i]-'0')
					i++
					k++
				}
				i--
				c = byte(v)
			case c == '\n':
				continue
			case c == '\r':
				if i+1 < len(s) && s[i+1] == '\n' {
					i++
				}
				continue
			}
		}
		r = append(r, c)
	}
	return string(r)
}
