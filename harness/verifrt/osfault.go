package verifrt

import (
	"io"
	"os"
	"time"
)

// OsHook is called before every call of the operating system by the program (see engine/instrument.go).
// An error makes the call fail, a panic ends the "process".
var OsHook func(op, path string) error

func osStep(op, path string) error {
	if OsHook == nil {
		return nil
	}
	return OsHook(op, path)
}

func OsRename(a, b string) error {
	if err := osStep("rename", b); err != nil {
		return err
	}
	return os.Rename(a, b)
}

func OsLink(a, b string) error {
	if err := osStep("link", b); err != nil {
		return err
	}
	return os.Link(a, b)
}

func OsRemove(name string) error {
	if err := osStep("remove", name); err != nil {
		return err
	}
	return os.Remove(name)
}

func OsCreate(name string) (*os.File, error) {
	if err := osStep("create", name); err != nil {
		return nil, err
	}
	return os.Create(name)
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	if err := osStep("createtemp", dir); err != nil {
		return nil, err
	}
	return os.CreateTemp(dir, pattern)
}

func OsOpen(name string) (*os.File, error) {
	if err := osStep("open", name); err != nil {
		return nil, err
	}
	return os.Open(name)
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if err := osStep("openfile", name); err != nil {
		return nil, err
	}
	return os.OpenFile(name, flag, perm)
}

// OsWriteFile consists of two steps: creating (or emptying) the file and writing it.
func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	if OsHook == nil {
		return os.WriteFile(name, data, perm)
	}
	if err := osStep("create", name); err != nil {
		return err
	}
	if err := os.WriteFile(name, nil, perm); err != nil {
		return err
	}
	if err := osStep("write", name); err != nil {
		return err
	}
	return os.WriteFile(name, data, perm)
}

func OsReadFile(name string) ([]byte, error) {
	if err := osStep("read", name); err != nil {
		return nil, err
	}
	return os.ReadFile(name)
}

func OsStat(name string) (os.FileInfo, error) {
	if err := osStep("stat", name); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func OsMkdirAll(name string, perm os.FileMode) error {
	if err := osStep("mkdirall", name); err != nil {
		return err
	}
	return os.MkdirAll(name, perm)
}

func OsMkdir(name string, perm os.FileMode) error {
	if err := osStep("mkdir", name); err != nil {
		return err
	}
	return os.Mkdir(name, perm)
}

func OsChtimes(name string, a, m time.Time) error {
	if err := osStep("chtimes", name); err != nil {
		return err
	}
	return os.Chtimes(name, a, m)
}

// IoCopy: a failing copy has written nothing (parts of it are the business of FileLike wrappers).
func IoCopy(dst io.Writer, src io.Reader) (int64, error) {
	if err := osStep("copy", ""); err != nil {
		return 0, err
	}
	return io.Copy(dst, src)
}
