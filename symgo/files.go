package main

// Models of files, pipes and image encoders. Files live in the path's side
// state; nothing of the real file system is seen or changed.

import (
	"bytes"
	"go/types"
	"image"
	"image/jpeg"
	"image/png"
	"strings"
)

type fileKey struct{ path string }
type noFileKey struct{ err any }

type pipe struct {
	ch     []Chunk
	closed bool
	err    Value
}

func (w *Worker) fileGet(path Value) (*Str, bool) {
	s, ok := w.side[fileKey{mustStr(path)}].(*Str)
	return s, ok
}

// noFile is the error of a file that does not exist.
func (w *Worker) noFile(path Value) Value {
	e := w.errVal(sv("open " + mustStr(path) + ": no such file or directory"))
	w.side[noFileKey{e.X.(*Iface).v.X}] = true
	return e
}

func (w *Worker) fileReader(s *Str) Value {
	b := w.e.prog.ImportedPackage("bytes")
	rd := w.call(b.Func("NewReader"), []Value{ropeSlice(s)}, nil)
	return Value{X: &Iface{types.NewPointer(b.Type("Reader").Type()), rd}}
}

// goImage makes the image that a concrete interpreted one stands for.
func (w *Worker) goImage(v Value) image.Image {
	i, _ := v.X.(*Iface)
	if i == nil {
		unsup("encoding a nil image")
	}
	num := func(v Value) int {
		if v.X != nil {
			unsup("encoding an image of unknown size")
		}
		return int(int64(v.N))
	}
	p, ok := i.v.X.(*Value)
	if !ok {
		unsup("encoding an image of this type")
	}
	st, ok := p.X.(*StructV)
	if !ok || len(st.f) != 3 {
		unsup("encoding an image of this type")
	}
	var pix []byte
	if s, _ := st.f[0].X.(*Slice); s != nil {
		l, ok := w.x.normRope(w.sliceRope(s).ch).isLit()
		if !ok {
			unsup("encoding an image of unknown pixels")
		}
		pix = []byte(l)
	}
	r := st.f[2].X.(*StructV)
	mn, mx := r.f[0].X.(*StructV), r.f[1].X.(*StructV)
	rect := image.Rectangle{Min: image.Point{X: num(mn.f[0]), Y: num(mn.f[1])}, Max: image.Point{X: num(mx.f[0]), Y: num(mx.f[1])}}
	stride := num(st.f[1])
	switch strings.TrimPrefix(i.t.String(), "*image.") {
	case "NRGBA":
		return &image.NRGBA{Pix: pix, Stride: stride, Rect: rect}
	case "RGBA":
		return &image.RGBA{Pix: pix, Stride: stride, Rect: rect}
	case "Gray":
		return &image.Gray{Pix: pix, Stride: stride, Rect: rect}
	}
	unsup("encoding an image of this type")
	return nil
}

func fileModels(m map[string]native, hp string) {

	put := func(w *Worker, path string, b Value) {
		s, _ := b.X.(*Slice)
		w.side[fileKey{path}] = &Str{ch: append([]Chunk{}, w.sliceRope(s).ch...)}
	}
	m[hp+"vFile"] = func(w *Worker, a []Value) Value {
		p := "/virtual/" + mustStr(a[0])
		put(w, p, a[1])
		return sv(p)
	}
	m["os.ReadFile"] = func(w *Worker, a []Value) Value {
		s, ok := w.fileGet(a[0])
		if !ok {
			return tup(Value{}, w.noFile(a[0]))
		}
		return tup(ropeSlice(&Str{ch: append([]Chunk{}, s.ch...)}), Value{})
	}
	m["os.WriteFile"] = func(w *Worker, a []Value) Value {
		if p := mustStr(a[0]); strings.HasPrefix(p, "/virtual/") && strings.Count(p, "/") == 2 {
			put(w, p, a[1])
			return Value{}
		}
		return w.noFile(a[0])
	}
	m["os.Stat"] = func(w *Worker, a []Value) Value {
		s, ok := w.fileGet(a[0])
		if !ok {
			return tup(Value{}, w.noFile(a[0]))
		}
		return tup(w.fileReader(s), Value{}) // a bytes.Reader has the method Size, too
	}
	m["os.IsNotExist"] = func(w *Worker, a []Value) Value {
		i, _ := a[0].X.(*Iface)
		return bv(i != nil && w.side[noFileKey{i.v.X}] != nil)
	}
	m["os.Open"] = func(w *Worker, a []Value) Value {
		s, ok := w.fileGet(a[0])
		if !ok {
			return tup(Value{}, w.noFile(a[0]))
		}
		z := zero(w.e.prog.ImportedPackage("os").Type("File").Type())
		pv := &z
		w.side[pv] = w.fileReader(s)
		return tup(Value{X: pv}, Value{})
	}
	file := func(w *Worker, v Value) Value {
		r, ok := w.side[v.X].(Value)
		if !ok {
			unsup("file")
		}
		return r
	}
	for _, name := range []string{"Read", "Seek", "ReadAt"} {
		name := name
		m["(*os.File)."+name] = func(w *Worker, a []Value) Value { return w.invoke(file(w, a[0]), name, a[1:]) }
	}
	m["(*os.File).Close"] = func(w *Worker, a []Value) Value { return Value{} }
	m["(*os.File).Stat"] = func(w *Worker, a []Value) Value { return tup(file(w, a[0]), Value{}) }

	m["io.Pipe"] = func(w *Worker, a []Value) Value {
		p := w.e.prog.ImportedPackage("io")
		r, wr := zero(p.Type("PipeReader").Type()), zero(p.Type("PipeWriter").Type())
		q := &pipe{}
		pr, pw := &r, &wr
		w.side[pr], w.side[pw] = q, q
		return tup(Value{X: pr}, Value{X: pw})
	}
	m["(*io.PipeWriter).Write"] = func(w *Worker, a []Value) Value {
		q := w.side[a[0].X].(*pipe)
		s, _ := a[1].X.(*Slice)
		if q.closed {
			return tup(iv(0), w.errVal(sv("io: read/write on closed pipe")))
		}
		q.ch = append(q.ch, w.sliceRope(s).ch...)
		return tup(fromTerm(w.sliceLen(s), tInt), Value{})
	}
	m["(*io.PipeWriter).CloseWithError"] = func(w *Worker, a []Value) Value {
		q := w.side[a[0].X].(*pipe)
		if !q.closed {
			q.closed, q.err = true, a[1]
		}
		return Value{}
	}
	m["(*io.PipeWriter).Close"] = func(w *Worker, a []Value) Value {
		w.side[a[0].X].(*pipe).closed = true
		return Value{}
	}
	m["(*io.PipeReader).Close"] = func(w *Worker, a []Value) Value {
		w.side[a[0].X].(*pipe).closed = true
		return Value{}
	}
	m["(*io.PipeReader).Read"] = func(w *Worker, a []Value) Value {
		q := w.side[a[0].X].(*pipe)
		d, _ := a[1].X.(*Slice)
		if d == nil || d.len == 0 {
			return tup(iv(0), Value{})
		}
		s := w.x.normRope(q.ch)
		if len(s.ch) == 0 {
			if !q.closed {
				unsup("reading a pipe that nobody writes to")
			}
			if q.err.X != nil {
				return tup(iv(0), q.err)
			}
			return tup(iv(0), w.ioEOF())
		}
		l := w.x.strLen(s)
		if !l.isC() {
			unsup("pipe of symbolic length")
		}
		k := d.len
		if int(l.c) < k {
			k = int(l.c)
		}
		h := w.ropeSub(s, nil, w.x.BVc(uint64(k), 64))
		q.ch = append([]Chunk{}, w.ropeSub(s, w.x.BVc(uint64(k), 64), nil).ch...)
		w.copyS(a[1], ropeSlice(h))
		return tup(iv(k), Value{})
	}
	m["image/png.Encode"] = func(w *Worker, a []Value) Value {
		var b bytes.Buffer
		if err := png.Encode(&b, w.goImage(a[1])); err != nil {
			return w.errVal(sv(err.Error()))
		}
		return w.writeTo(a[0], litStr(b.String())).X.([]Value)[1]
	}
	m["image/jpeg.Encode"] = func(w *Worker, a []Value) Value {
		if o, ok := a[2].X.(*Value); ok && o != nil {
			unsup("JPEG options")
		}
		var b bytes.Buffer
		if err := jpeg.Encode(&b, w.goImage(a[1]), nil); err != nil {
			return w.errVal(sv(err.Error()))
		}
		return w.writeTo(a[0], litStr(b.String())).X.([]Value)[1]
	}
}
