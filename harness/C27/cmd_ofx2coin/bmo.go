package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
)

// vChunks delivers its text in pieces of random sizes, sometimes with the end in the same call as the last piece.
type vChunks struct {
	text []byte
	r    *rand.Rand
	max  int
	fin  error
}

func (c *vChunks) Read(p []byte) (int, error) {
	if len(c.text) == 0 {
		return 0, c.fin
	}
	n := 1 + c.r.Intn(c.max)
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.text) {
		n = len(c.text)
	}
	copy(p, c.text[:n])
	c.text = c.text[n:]
	if len(c.text) == 0 && c.r.Intn(2) == 0 {
		return n, c.fin
	}
	return n, nil
}

func vFilter(text string) string {
	var out strings.Builder
	head, body, gap := false, false, false
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line = text[:i+1]
		}
		text = text[len(line):]
		switch {
		case line == "\n" && !head:
			continue
		case body && (line == "<BANKMSGSET><BANKMSGSETV1>\n" || line == "<BANKMSGSETV1><BANKMSGSET>\n"):
			continue
		case line == "<OFX>\n" && !body:
			if !gap {
				out.WriteByte('\n')
			}
			body = true
		case line == "\n" && !body:
			gap = true
		}
		head = true
		out.WriteString(line)
	}
	return out.String()
}

func vSource(r *rand.Rand) string {
	var b strings.Builder
	parts := []string{"\n", "\n", "OFXHEADER:100\n", "DATA:OFXSGML\n", "<OFX>\n", "<OFX>\n", "<BANKMSGSET><BANKMSGSETV1>\n", "<BANKMSGSETV1><BANKMSGSET>\n",
		"<STMTTRN>\n", " \n", "\r\n", "<OFX>\r\n", " <OFX>\n", "<OFX><SIGNONMSGSRSV1>\n", "<BANKMSGSET><BANKMSGSETV1><A>\n", "<BANKMSGSET>\n", "x\n"}
	n := r.Intn(14)
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			b.WriteString(strings.Repeat("y", 4090+r.Intn(12)) + "\n") // around the size of bufio's buffer
		case 1:
			b.WriteString(strings.Repeat("z", r.Intn(20)) + "\n")
		default:
			b.WriteString(parts[r.Intn(len(parts))])
		}
	}
	switch r.Intn(6) { // no line end at the end
	case 0:
		b.WriteString("</OFX>")
	case 1:
		b.WriteString("<OFX>")
	case 2:
		b.WriteString("<BANKMSGSET><BANKMSGSETV1>")
	}
	return b.String()
}

func TestVerifFilter(t *testing.T) {
	vRule("random texts of header, body, blank and near-miss lines (some longer than the buffers, some without a last line end), random buffer sizes and random chunks from the source: what the filter passes on against the same lines filtered from the whole text")
	r := vRand()
	broken := errors.New("broken line")
	for i := 0; i < vN(6000) && !vTime(6); i++ {
		text := vSource(r)
		var fin error = io.EOF
		if r.Intn(5) == 0 {
			fin = broken
		}
		max := []int{1, 2, 7, 100, 5000}[r.Intn(5)]
		size := []int{1, 2, 3, 16, 512, 4096, 10000}[r.Intn(7)]
		if len(text) > 2000 && size < 16 {
			size = 16
		}
		if len(text) > 2000 && max < 7 {
			max = 7
		}
		var err error
		vTry("filter", text, func() { err = vRun(r, text, fin, max, size) })
		want := vFilter(text)
		vCase(text, want != text)
		if err != nil {
			src := text
			if len(src) > 1500 {
				src = src[:700] + " ... " + src[len(src)-700:]
			}
			vBad("the filtered text differs", "source %q, buffers up to %d, chunks up to %d: %v", src, size, max, err)
		}
	}
}

func vRun(r *rand.Rand, text string, fin error, max, size int) error {
	f := newBMOReader(&vChunks{[]byte(text), r, max, fin})
	var got bytes.Buffer
	var err error
	for calls := 0; err == nil; calls++ {
		if calls > 2*len(text)+100 {
			return fmt.Errorf("still no end after %d reads", calls)
		}
		p := make([]byte, 1+r.Intn(size), size+8)
		tail := p[len(p):cap(p)]
		var n int
		n, err = f.Read(p)
		if n < 0 || n > len(p) {
			return fmt.Errorf("Read of %d returned %d", len(p), n)
		}
		for _, c := range tail {
			if c != 0 {
				return fmt.Errorf("Read wrote past the buffer")
			}
		}
		got.Write(p[:n])
		for i := range p { // the caller may reuse its buffer
			p[i] = '#'
		}
	}
	if err != fin {
		return fmt.Errorf("ended with %v, not %v", err, fin)
	}
	if want := vFilter(text); got.String() != want {
		a, b := got.String(), want
		k := 0
		for k < len(a) && k < len(b) && a[k] == b[k] {
			k++
		}
		cut := func(s string) string {
			lo, hi := k-60, k+60
			if lo < 0 {
				lo = 0
			}
			if hi > len(s) {
				hi = len(s)
			}
			return s[lo:hi]
		}
		return fmt.Errorf("want around the first difference (at %d) %q, got %q", k, cut(b), cut(a))
	}
	if n, err := f.Read(make([]byte, 8)); n != 0 || err == nil {
		return fmt.Errorf("a read after the end gave %d, %v", n, err)
	}
	return nil
}
