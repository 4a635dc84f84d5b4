// Package vfs puts files of the harness in the place of the file system and
// of HTTP servers. The engine adds the hooks to packages os and net/http by
// an overlay.
package vfs

import (
	"errors"
	"io"
	"net/http"
	"os"

	vf "github.com/nareix/joy5/zzvf"
)

// File is what is known of a file.
type File struct {
	Name      string
	Data      []byte
	Opened    int
	Closed    int
	Created   bool // did not exist before
	Truncated bool
	FailWrite int // if not 0, the write that fails
	writes    int
}

// FS holds the files by name.
type FS struct {
	Files map[string]*File
	Asked []string // every name that was to be opened
	Gets  []string // every address asked for
	Body  *Body    // of the next response
	Code  int
}

type handle struct {
	f   *File
	pos int
}

// Use makes fs the file system.
func Use() *FS {
	fs := &FS{Files: map[string]*File{}, Code: 200}
	os.ZZOpen = fs.open
	http.ZZGet = fs.get
	vf.OnEnd(func() { os.ZZOpen, http.ZZGet = nil, nil })
	return fs
}

func (fs *FS) Put(name string, data []byte) *File {
	f := &File{Name: name, Data: data}
	fs.Files[name] = f
	return f
}

func (fs *FS) open(name string, flag int) (os.ZZFile, error) {
	fs.Asked = append(fs.Asked, name)
	f := fs.Files[name]
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, os.ErrNotExist
		}
		f = fs.Put(name, nil)
		f.Created = true
	}
	if flag&os.O_TRUNC != 0 {
		f.Data, f.Truncated = nil, true
	}
	f.Opened++
	return &handle{f: f}, nil
}

func (h *handle) Read(b []byte) (int, error) {
	if h.pos >= len(h.f.Data) {
		return 0, io.EOF
	}
	n := copy(b, h.f.Data[h.pos:])
	h.pos += n
	return n, nil
}

func (h *handle) Write(b []byte) (int, error) {
	h.f.writes++
	if h.f.writes == h.f.FailWrite {
		return 0, errors.New("disk full")
	}
	for len(h.f.Data) < h.pos+len(b) {
		h.f.Data = append(h.f.Data, 0)
	}
	h.pos += copy(h.f.Data[h.pos:], b)
	return len(b), nil
}

func (h *handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(h.pos)
	case 2:
		off += int64(len(h.f.Data))
	}
	h.pos = int(off)
	return off, nil
}

func (h *handle) Close() error { h.f.Closed++; return nil }

// Body is the body of a response.
type Body struct {
	Data   []byte
	Closed int
	pos    int
}

func (b *Body) Read(p []byte) (int, error) {
	if b.pos >= len(b.Data) {
		return 0, io.EOF
	}
	n := copy(p, b.Data[b.pos:])
	b.pos += n
	return n, nil
}

func (b *Body) Close() error { b.Closed++; return nil }

func (fs *FS) get(url string) (*http.Response, error) {
	fs.Gets = append(fs.Gets, url)
	if fs.Body == nil {
		return nil, errors.New("connection refused")
	}
	return &http.Response{StatusCode: fs.Code, Status: "status", Body: fs.Body}, nil
}
