package gopdf

import (
	"errors"
	"io"
	"os"
)

func c02Doc(prot bool) *GoPdf {
	cfg := Config{PageSize: *PageSizeA4}
	if prot {
		cfg.Protection = PDFProtectionConfig{UseProtection: true, Permissions: PermissionsPrint, OwnerPass: []byte("o"), UserPass: []byte("u")}
	}
	pdf := vMini(cfg, vStdFont(2))
	pdf.SetInfo(PdfInfo{Title: "t"})
	pdf.AddPage()
	pdf.SetFont("f", "", 12)
	pdf.SetXY(10, 20)
	pdf.Text("AB")
	pdf.AddExternalLink("http://a", 1, 2, 3, 4)
	pdf.AddOutline("A")
	pdf.SetTransparency(Transparency{Alpha: 0.5, BlendModeType: Multiply})
	pdf.RectFromUpperLeftWithStyle(1, 2, 3, 4, "FD")
	pdf.AddColorSpaceRGB("c", 1, 2, 3)
	return pdf
}

// The writer fails at an arbitrary byte of the output (any crash point, chosen by the solver), with or without a partial write, and keeps failing: WriteTo and Write report the error, and WriteTo's count is what the writer accepted.
// symgo time=40s
func H_C02_failpoint() {
	prot := vBool("encrypted")
	pdf := c02Doc(prot)
	ok := &vSink{}
	n0, err := pdf.WriteTo(ok)
	vAssert(err == nil, "writing to a working writer succeeds")
	vAssert(int(n0) == len(ok.b), "WriteTo returns the number of bytes written")
	pdf = c02Doc(prot)
	w := &vFailWriter{limit: vInt("limit", 0, 20000), err: errors.New("disk full"), short: vBool("short")}
	if vBool("write") {
		err = pdf.Write(w)
	} else {
		var n int64
		n, err = pdf.WriteTo(w)
		vAssert(int(n) == w.got, "WriteTo returns the number of bytes the writer accepted")
	}
	if w.fails > 0 {
		vReach("failed")
		vAssert(err != nil, "an error of the underlying writer is reported")
		vAssert(err == nil || vErrIs(err, w.err), "the reported error is the writer's")
	} else {
		vReach("complete")
		vAssert(err == nil, "no error is reported when every write succeeded")
		vAssert(w.got == len(ok.b), "a successful write delivers the complete document")
	}
	vObsB("err", err != nil)
	vObsI("got", w.got)
}

// A writer that recovers after one failed call, or one that took only some of the bytes: the failure is still reported (the output has a hole).
// symgo time=25s
func H_C02_transient() {
	pdf := c02Doc(false)
	w := &c02Once{at: vInt("call", 0, 400), part: vChoice("part", 4)}
	_, err := pdf.WriteTo(w)
	if w.failed {
		vReach("failed")
		vAssert(err != nil, "a failed write is reported even when later writes succeed")
	} else {
		vReach("complete")
		vAssert(err == nil, "no error is reported when every write succeeded")
	}
	vObsB("err", err != nil)
}

type c02Once struct {
	n, at  int
	part   int // how many bytes the failing call takes, without an error if any
	failed bool
}

func (c *c02Once) Write(p []byte) (int, error) {
	c.n++
	if c.n-1 == c.at {
		if c.part == 0 {
			c.failed = true
			return 0, io.ErrClosedPipe
		}
		n := len(p) - 1
		if c.part < 3 {
			n = c.part - 1
		}
		if n >= 0 && n < len(p) {
			c.failed = true
			return n, nil
		}
	}
	return len(p), nil
}

// Reading the document in chunks of any size through Read gives exactly the written document.
// symgo time=25s
func H_C02_read() {
	a := &vSink{}
	_, err := c02Doc(false).WriteTo(a)
	vAssert(err == nil, "writing to a working writer succeeds")
	pdf := c02Doc(false)
	k := []int{1 << 14, 2048, 1000, len(a.b) + 1, len(a.b), len(a.b) - 1, 512}[vChoice("chunk", 7)]
	var b []byte
	for i := 0; i < 8; i++ {
		p := make([]byte, k)
		n, err := pdf.Read(p)
		vAssert(n >= 0 && n <= len(p), "Read returns a count within the buffer")
		b = append(b, p[:n]...)
		if err != nil {
			vReach("eof")
			vAssert(err == io.EOF, "Read ends with EOF")
			vAssert(vBytesEq(a.b, b), "the bytes read are the document")
			break
		}
	}
	vAssert(len(b) <= len(a.b), "Read never returns more than the document")
	vObsI("n", len(b))
}

// A file written has exactly the document, whatever was there before; one that cannot be written is an error.
func H_C02_file() {
	prot := vBool("encrypted")
	a := &vSink{}
	_, err := c02Doc(prot).WriteTo(a)
	vAssert(err == nil, "writing to a working writer succeeds")
	pdf := c02Doc(prot)
	if vBool("nowhere") {
		vAssert(pdf.WritePdf("/no/such/folder/x.pdf") != nil, "a file that cannot be written is an error")
		vReach("failed")
	}
	var old []byte
	if vBool("exists") {
		old = make([]byte, len(a.b)+100*vChoice("longer", 2))
	}
	p := vFile("out.pdf", old)
	vAssert(pdf.WritePdf(p) == nil, "writing to a file succeeds")
	b, err := os.ReadFile(p)
	vAssert(err == nil, "the file written is there")
	d := vParse(b)
	vCheckFile(d)
	if !prot { // otherwise the key is of the time
		vAssert(vBytesEq(a.b, b), "the file has the complete document")
	} else {
		vAssert(len(a.b) == len(b), "the file has the complete document")
	}
	vReach("complete")
}
