package vf

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"
)

// The functions below are contracts of package os for reading the files made
// with SetFile; the engine calls them in place of the library's functions.

// fileGet returns the content and the time of modification of a file (engine only).
func fileGet(name string) (string, time.Time, bool) { panic("engine only") }

// ModelJoin is the text of joined errors.
func ModelJoin(errs []error) string {
	s := errs[0].Error()
	for _, e := range errs[1:] {
		s += "\n" + e.Error()
	}
	return s
}

type openFile struct {
	name, data string
	at         time.Time
	off        int
	closed     bool
}

var openFiles = map[*os.File]*openFile{}

type fileInfo struct {
	name string
	size int64
	at   time.Time
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0o600 }
func (i fileInfo) ModTime() time.Time { return i.at }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

// ModelOpen is the contract of os.Open.
func ModelOpen(name string) (*os.File, error) {
	d, at, ok := fileGet(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	f := new(os.File)
	openFiles[f] = &openFile{name: name, data: d, at: at}
	return f, nil
}

// ModelOpenFile is the contract of os.OpenFile for reading.
func ModelOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		panic("files are only read")
	}
	return ModelOpen(name)
}

// ModelReadFile is the contract of os.ReadFile.
func ModelReadFile(name string) ([]byte, error) {
	d, _, ok := fileGet(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	return []byte(d), nil
}

// ModelStat is the contract of os.Stat and os.Lstat.
func ModelStat(name string) (os.FileInfo, error) {
	d, at, ok := fileGet(name)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return fileInfo{filepath.Base(name), int64(len(d)), at}, nil
}

func modelFile(f *os.File, op string) (*openFile, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	o := openFiles[f]
	if o.closed {
		return nil, &fs.PathError{Op: op, Path: o.name, Err: os.ErrClosed}
	}
	return o, nil
}

// ModelFileRead is the contract of (*os.File).Read.
func ModelFileRead(f *os.File, b []byte) (int, error) {
	o, err := modelFile(f, "read")
	if err != nil || len(b) == 0 {
		return 0, err
	}
	if o.off >= len(o.data) {
		return 0, io.EOF
	}
	n := copy(b, o.data[o.off:])
	o.off += n
	return n, nil
}

// ModelFileWriteTo is the contract of (*os.File).WriteTo.
func ModelFileWriteTo(f *os.File, w io.Writer) (int64, error) {
	o, err := modelFile(f, "read")
	if err != nil {
		return 0, err
	}
	n, err := io.WriteString(w, o.data[o.off:])
	o.off += n
	return int64(n), err
}

// ModelFileStat is the contract of (*os.File).Stat.
func ModelFileStat(f *os.File) (os.FileInfo, error) {
	o, err := modelFile(f, "stat")
	if err != nil {
		return nil, err
	}
	return fileInfo{filepath.Base(o.name), int64(len(o.data)), o.at}, nil
}

// ModelFileName is the contract of (*os.File).Name.
func ModelFileName(f *os.File) string { return openFiles[f].name }

// ModelFileClose is the contract of (*os.File).Close.
func ModelFileClose(f *os.File) error {
	o, err := modelFile(f, "close")
	if err == nil {
		o.closed = true
	}
	return err
}

// ModelNewFile is the contract of os.NewFile: a standard stream that nobody reads.
func ModelNewFile(fd uintptr, name string) *os.File { return new(os.File) }

// ModelFileWrite is the contract of (*os.File).Write.
func ModelFileWrite(f *os.File, b []byte) (int, error) {
	if f == nil || openFiles[f] != nil {
		return 0, &fs.PathError{Op: "write", Err: syscall.EBADF}
	}
	return len(b), nil
}

// ModelFileWriteString is the contract of (*os.File).WriteString.
func ModelFileWriteString(f *os.File, s string) (int, error) { return ModelFileWrite(f, []byte(s)) }

// The functions below are a hash in place of xxhash.

var hashes = map[any]uint64{}

func ModelHashReset(h any) { hashes[h] = 0 }

func ModelHashWrite(h any, b []byte) (int, error) { return ModelHashWriteString(h, string(b)) }

func ModelHashWriteString(h any, s string) (int, error) {
	x := hashes[h]
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i]) + 7) * 1099511628211
	}
	hashes[h] = x
	return len(s), nil
}

func ModelHashSum64(h any) uint64 { return hashes[h] }

// hashed holds the values that were hashed as a whole. The hash is an ideal
// one: equal values have the same hash and different values have different ones.
var hashed []string

// ModelSum64 is the contract of xxhash.Sum64.
func ModelSum64(b []byte) uint64 { return ModelSum64String(string(b)) }

// ModelSum64String is the contract of xxhash.Sum64String.
func ModelSum64String(s string) uint64 {
	for i, h := range hashed {
		if h == s {
			return uint64(i+1) * 0x9e3779b97f4a7c15
		}
	}
	hashed = append(hashed, s)
	return uint64(len(hashed)) * 0x9e3779b97f4a7c15
}
