package gopdf

import "time"

// c31Read is the text that a reader finds in an entry of the document information.
func (d *vDoc) c31Info() *vO {
	o := d.Trailer.get("Info")
	if o.K == 'r' {
		if i := d.obj(o.I); i != nil {
			return i.O
		}
	}
	return o
}

// c31Is: the entry is the UTF-16 text of the characters, or missing when there are none.
func c31Is(d *vDoc, info *vO, key string, rs []rune) {
	o := info.get(key)
	if len(rs) == 0 {
		vAssert(o.K == 0, "an entry that is not given is not written")
		return
	}
	vAssert(o.K == '<' || o.K == '(', "an entry of the document information is a string")
	vAssert(info.count(key) == 1, "an entry of the document information is written once")
	var s string
	if o.K == '<' {
		s = vUnhex(o.S)
	} else {
		s = vUnesc(o.S)
	}
	want := []byte{0xFE, 0xFF}
	for _, r := range rs {
		if r >= 0x10000 {
			v := r - 0x10000
			want = append(want, byte(0xD8+v>>18), byte(v>>10), byte(0xDC+(v>>8)&3), byte(v))
		} else {
			want = append(want, byte(r>>8), byte(r))
		}
	}
	vAssert(vBytesEq([]byte(s), want), "an entry of the document information is the text given")
}

var c31Keys = []string{"Title", "Author", "Subject", "Creator", "Producer"}

func c31Set(p *PdfInfo, k int, s string) {
	switch k {
	case 0:
		p.Title = s
	case 1:
		p.Author = s
	case 2:
		p.Subject = s
	case 3:
		p.Creator = s
	default:
		p.Producer = s
	}
}

// Any characters in any of the entries, set once or again, before or after pages and
// outputs, in plain and protected documents.
// symgo time=30s
func H_C31_texts() {
	pdf := &GoPdf{}
	cfg := Config{PageSize: *PageSizeA4}
	if vChoice("protected", 2) == 1 {
		cfg.Protection = PDFProtectionConfig{UseProtection: true, UserPass: []byte("u")}
	}
	pdf.Start(cfg)
	var in PdfInfo
	var texts [5][]rune
	k := vChoice("entry", 5)
	n := vChoice("n", 4)
	for i := 0; i < n; i++ {
		texts[k] = append(texts[k], vRune("r"+vItoa(i), 1, 0x10FFFF))
	}
	if vChoice("others", 2) == 1 {
		texts[(k+1)%5] = []rune("a(\\)")
		texts[(k+2)%5] = []rune{'é', 0x1F600}
	}
	for i := range texts {
		s := ""
		for _, r := range texts[i] {
			s += string(r)
		}
		c31Set(&in, i, s)
	}
	when := vChoice("when", 4)
	if when == 0 {
		pdf.SetInfo(in)
	}
	pdf.AddPage()
	if when == 1 {
		pdf.SetInfo(PdfInfo{Title: "x", Author: "y", Subject: "z", Creator: "v", Producer: "w", CreationDate: time.Unix(1e9, 0)})
		pdf.SetInfo(in)
	}
	if when == 2 {
		pdf.GetBytesPdf()
		pdf.SetInfo(in)
	}
	if when == 3 {
		pdf.SetInfo(PdfInfo{Title: "x", CreationDate: time.Unix(1e9, 0)})
		pdf.GetBytesPdf()
		pdf.SetInfo(in)
	}
	got := pdf.GetInfo()
	vAssert(vStrEq(got.Title, in.Title) && vStrEq(got.Author, in.Author) && vStrEq(got.Subject, in.Subject) && vStrEq(got.Creator, in.Creator) && vStrEq(got.Producer, in.Producer), "the document information can be read back")
	in.Title = "changed"
	d := vOut8(pdf)
	vCheckFile(d)
	if !d.OK {
		return
	}
	info := d.c31Info()
	for i := range texts {
		c31Is(d, info, c31Keys[i], texts[i])
	}
	vAssert(!info.has("CreationDate"), "an entry that is not given is not written")
	vReach("done")
}

// Any creation date in any time zone is written as that moment and zone.
// symgo time=50s ttime=300s
func H_C31_date() {
	pdf := &GoPdf{}
	pdf.Start(Config{PageSize: *PageSizeA4})
	off := vInt("zone", -14*60, 14*60)
	mon := 1 + 5*vChoice("month", 2)
	if vTier() > 0 {
		mon = 1 + vChoice("month", 12)
	}
	year := 2024
	if mon == 1 {
		year = []int{2024, 1964, 1600}[vChoice("year", 3)]
	}
	t := time.Date(year, time.Month(mon), 29, 23, 59, 58, 0, time.FixedZone("", off*60))
	pdf.SetInfo(PdfInfo{CreationDate: t})
	pdf.AddPage()
	d := vOut8(pdf)
	vCheckFile(d)
	if !d.OK {
		return
	}
	o := d.c31Info().get("CreationDate")
	vAssert(o.K == '(', "the date is a string")
	s := vUnesc(o.S)
	mm := string([]byte{'0' + byte(mon/10), '0' + byte(mon%10)})
	vAssert(len(s) == 23 || len(s) == 22, "the date has year to seconds and the zone with minutes")
	if len(s) != 23 && len(s) != 22 {
		return
	}
	vAssert(vStrEq(s[:16], "D:"+vItoa(year)+mm+"29235958"), "the date is the one given")
	num := func(i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }
	z := num(17)*60 + num(20)
	vAssert(vAnd(vAnd(s[17] >= '0', s[17] <= '9'), vAnd(vAnd(s[18] >= '0', s[18] <= '9'), vAnd(vAnd(s[20] >= '0', s[20] <= '5'), vAnd(s[21] >= '0', s[21] <= '9')))), "the zone is given in digits")
	vAssert(vAnd(s[19] == '\'', vOr(len(s) == 22, s[len(s)-1] == '\'')), "hours and minutes are separated")
	vAssert(vOr(vAnd(s[16] == '+', z == off), vAnd(s[16] == '-', z == -off)), "the date has the zone given")
	vReach("done")
}
