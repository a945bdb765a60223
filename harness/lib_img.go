package gopdf

import (
	"bytes"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
)

// The executor sends image.DecodeConfig and image.Decode here (same behaviour
// as the registration table of package image for the formats gopdf imports).
func vImageDecodeConfig(r io.Reader) (image.Config, string, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return image.Config{}, "", err
	}
	if len(b) >= 8 && b[0] == 0x89 && b[1] == 'P' && b[2] == 'N' && b[3] == 'G' && b[4] == 0x0d && b[5] == 0x0a && b[6] == 0x1a && b[7] == 0x0a {
		c, err := png.DecodeConfig(bytes.NewReader(b))
		return c, "png", err
	}
	if len(b) >= 2 && b[0] == 0xff && b[1] == 0xd8 {
		c, err := jpeg.DecodeConfig(bytes.NewReader(b))
		return c, "jpeg", err
	}
	if len(b) >= 6 && b[0] == 'G' && b[1] == 'I' && b[2] == 'F' && b[3] == '8' && (b[4] == '7' || b[4] == '9') && b[5] == 'a' {
		c, err := gif.DecodeConfig(bytes.NewReader(b))
		return c, "gif", err
	}
	return image.Config{}, "", image.ErrFormat
}

func vImageDecode(r io.Reader) (image.Image, string, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, "", err
	}
	if vSymbolic() {
		// the library only asks for the bounds
		c, f, err := vImageDecodeConfig(bytes.NewReader(b))
		return vStubImg{c.Width, c.Height}, f, err
	}
	if len(b) >= 8 && b[0] == 0x89 && b[1] == 'P' {
		m, err := png.Decode(bytes.NewReader(b))
		return m, "png", err
	}
	if len(b) >= 2 && b[0] == 0xff && b[1] == 0xd8 {
		m, err := jpeg.Decode(bytes.NewReader(b))
		return m, "jpeg", err
	}
	if len(b) >= 6 && b[0] == 'G' && b[1] == 'I' && b[2] == 'F' {
		m, err := gif.Decode(bytes.NewReader(b))
		return m, "gif", err
	}
	return nil, "", image.ErrFormat
}

// vPNG assembles PNG files chunk by chunk.
type vPNG struct{ b []byte }

func vNewPNG() *vPNG { return &vPNG{b: []byte{0x89, 'P', 'N', 'G', 0x0d, 0x0a, 0x1a, 0x0a}} }
func (p *vPNG) chunk(typ string, data []byte) *vPNG {
	p.b = vU32(p.b, len(data))
	td := append([]byte(typ), data...)
	p.b = append(p.b, td...)
	p.b = append(p.b, vCRC(td)...)
	return p
}
func (p *vPNG) ihdr(w, h, depth, ct int) *vPNG {
	var d []byte
	d = vU32(d, w)
	d = vU32(d, h)
	d = append(d, byte(depth), byte(ct), 0, 0, 0)
	return p.chunk("IHDR", d)
}

// vPixels is a PNG of w x h pixels with the given colour type (8 bit) and raw scanlines (filter byte included).
func vPixels(w, h, ct int, raw []byte) []byte {
	p := vNewPNG().ihdr(w, h, 8, ct)
	if ct == 3 {
		p.chunk("PLTE", []byte{1, 2, 3, 40, 50, 60})
	}
	return p.chunk("IDAT", vDeflate(raw)).chunk("IEND", nil).b
}

func vRaw(w, h, ct int) []byte {
	n := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
	var r []byte
	for y := 0; y < h; y++ {
		r = append(r, 0)
		for i := 0; i < w*n; i++ {
			r = append(r, byte((y+i)&1))
		}
	}
	return r
}

// vJPEG is a JPEG header (through SOF0) with nc components, enough for the library, which embeds the file as it is.
func vJPEG(w, h, nc int, tail []byte) []byte {
	b := []byte{0xff, 0xd8, 0xff, 0xc0}
	b = vU16(b, 8+3*nc)
	b = append(b, 8)
	b = vU16(b, h)
	b = vU16(b, w)
	b = append(b, byte(nc))
	for i := 0; i < nc; i++ {
		b = append(b, byte(i+1), 0x11, 0)
	}
	b = append(b, 0xff, 0xda, 0, 2)
	b = append(b, tail...)
	return append(b, 0xff, 0xd9)
}

// vImg is an image holder over given bytes.
type vImg struct {
	id string
	r  *bytes.Reader
}

func (v *vImg) ID() string                 { return v.id }
func (v *vImg) Read(p []byte) (int, error) { return v.r.Read(p) }
func vHolder(id string, b []byte) *vImg    { return &vImg{id, bytes.NewReader(b)} }

type vStubImg struct{ w, h int }

func (s vStubImg) ColorModel() color.Model { return color.GrayModel }
func (s vStubImg) Bounds() image.Rectangle { return image.Rect(0, 0, s.w, s.h) }
func (s vStubImg) At(x, y int) color.Color { return color.Gray{} }

// vStored is a zlib stream that holds its data as it is.
func vStored(b []byte) []byte {
	n := len(b)
	z := append([]byte{0x78, 1, 1, byte(n), byte(n >> 8), byte(^n), byte(^n >> 8)}, b...)
	return append(z, vAdler(b)...)
}

// vGoImg is a picture in memory.
func vGoImg(w, h int) image.Image {
	p := make([]byte, 4*w*h)
	for i := range p {
		p[i] = byte(200 + 7*i)
		if i%4 == 3 {
			p[i] = byte(255 - i)
		}
	}
	return &image.NRGBA{Pix: p, Stride: 4 * w, Rect: image.Rect(0, 0, w, h)}
}
