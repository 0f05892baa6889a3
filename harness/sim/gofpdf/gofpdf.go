// Package gofpdf stands in for github.com/jung-kurt/gofpdf: a document is the
// texts put on its pages. How a text becomes PDF is not modelled; creating,
// writing and closing the file is, the way the real package does it (the file
// is created with the default mode and errors of closing it are ignored).
package gofpdf

import (
	"io"

	os "verif/harness/sim/faultos"
)

// PageMark precedes the contents of every page in the written file, Tail ends it.
const (
	PageMark = "%PAGE%\n"
	Tail     = "%EOF%\n"
)

type Fpdf struct {
	pages []string
	err   error
}

func New(orientation, unit, size, fontDir string) *Fpdf { return &Fpdf{} }

func (f *Fpdf) Ok() bool                                              { return f.err == nil }
func (f *Fpdf) Err() bool                                             { return f.err != nil }
func (f *Fpdf) Error() error                                          { return f.err }
func (f *Fpdf) SetError(err error)                                    { f.err = err }
func (f *Fpdf) SetErrorf(s string, a ...any)                          {}
func (f *Fpdf) PageCount() int                                        { return len(f.pages) }
func (f *Fpdf) PageNo() int                                           { return len(f.pages) }
func (f *Fpdf) SetMargins(l, t, r float64)                            {}
func (f *Fpdf) SetLeftMargin(l float64)                               {}
func (f *Fpdf) SetTopMargin(l float64)                                {}
func (f *Fpdf) SetRightMargin(l float64)                              {}
func (f *Fpdf) SetAutoPageBreak(bool, float64)                        {}
func (f *Fpdf) SetCompression(bool)                                   {}
func (f *Fpdf) SetFontSize(float64)                                   {}
func (f *Fpdf) SetTitle(string, bool)                                 {}
func (f *Fpdf) SetAuthor(string, bool)                                {}
func (f *Fpdf) SetSubject(string, bool)                               {}
func (f *Fpdf) SetCreator(string, bool)                               {}
func (f *Fpdf) SetKeywords(string, bool)                              {}
func (f *Fpdf) SetFont(family, style string, size float64)            {}
func (f *Fpdf) AddUTF8FontFromBytes(family, style string, b []byte)   {}
func (f *Fpdf) AddUTF8Font(family, style, file string)                {}
func (f *Fpdf) AddFontFromBytes(family, style string, json, z []byte) {}
func (f *Fpdf) SetX(float64)                                          {}
func (f *Fpdf) SetY(float64)                                          {}
func (f *Fpdf) SetXY(x, y float64)                                    {}
func (f *Fpdf) SetTextColor(r, g, b int)                              {}

func (f *Fpdf) AddPage() {
	if f.err == nil {
		f.pages = append(f.pages, "")
	}
}

func (f *Fpdf) put(s string) {
	if f.err != nil || len(f.pages) == 0 { // what is put on no page is lost
		return
	}
	f.pages[len(f.pages)-1] += s
}

func (f *Fpdf) Ln(h float64)                { f.put("\n") }
func (f *Fpdf) Write(h float64, s string)   { f.put(s) }
func (f *Fpdf) Cell(w, h float64, s string) { f.put(s) }
func (f *Fpdf) CellFormat(w, h float64, s, border string, ln int, align string, fill bool, link int, l string) {
	f.put(s)
}

// MultiCell prints text with line breaks.
func (f *Fpdf) MultiCell(w, h float64, txt, border, align string, fill bool) { f.put(txt + "\n") }

// Close terminates the document.
func (f *Fpdf) Close() {}

// Output sends the document to w.
func (f *Fpdf) Output(w io.Writer) error {
	if f.err != nil {
		return f.err
	}
	s := ""
	for _, p := range f.pages {
		s += PageMark + p
	}
	if _, err := w.Write([]byte(s + Tail)); err != nil {
		f.err = err
	}
	return f.err
}

func (f *Fpdf) OutputAndClose(w io.WriteCloser) error {
	f.Output(w)
	w.Close()
	return f.err
}

func (f *Fpdf) OutputFileAndClose(name string) error {
	if f.err == nil {
		file, err := os.Create(name)
		if err == nil {
			f.Output(file)
			file.Close()
		} else {
			f.err = err
		}
	}
	return f.err
}
