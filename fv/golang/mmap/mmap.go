// Package mmap stands in for golang.org/x/exp/mmap, which may not be installed: it reads the whole file.
package mmap

import (
	"errors"
	"io"
	"io/ioutil"
)

type ReaderAt struct {
	data []byte
}

func Open(filename string) (*ReaderAt, error) {
	b, err := ioutil.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	// exactly as large as the file: accesses behind its end panic
	return &ReaderAt{append(make([]byte, 0, len(b)), b...)[:len(b):len(b)]}, nil
}

func (r *ReaderAt) Close() error {
	if r.data == nil {
		return nil
	}
	r.data = nil
	return nil
}

func (r *ReaderAt) Len() int {
	return len(r.data)
}

func (r *ReaderAt) At(i int) byte {
	return r.data[i]
}

func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.data == nil {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(len(r.data)) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
